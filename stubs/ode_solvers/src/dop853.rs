#![allow(dead_code, unused_imports)]
//! Explicit Runge-Kutta method with Dormand-Prince coefficients of order 8(5,3) and dense output of order 7.

use crate::butcher_tableau::Dopri853;
use crate::controller::Controller;
use crate::dop_shared::*;


use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, OVector, Scalar};
use num_traits::Zero;
use simba::scalar::{ClosedAdd, ClosedMul, ClosedSub, SubsetOf, SupersetOf};

trait DefaultController {
    fn default(x: f64, x_end: f64) -> Self;
}

impl DefaultController for Controller {
    fn default(x: f64, x_end: f64) -> Self {
        let alpha = 1.0 / 8.0;
        Controller::new(alpha, 0.0, 6.0, 0.333, x_end - x, 0.9, sign(1.0, x_end - x))
    }
}
/// Structure containing the parameters for the numerical integration.
pub struct Dop853<V, F>
where
    F: System<V>,
{
    f: F,
    x: f64,
    x0: f64,
    x_old: f64,
    x_end: f64,
    xd: f64,
    dx: f64,
    y: V,
    rtol: f64,
    atol: f64,
    x_out: Vec<f64>,
    y_out: Vec<V>,
    uround: f64,
    h: f64,
    h_old: f64,
    n_max: u32,
    n_stiff: u32,
    coeffs: Dopri853,
    controller: Controller,
    out_type: OutputType,
    rcont: [V; 8],
    stats: Stats,
}

impl<T, D: Dim, F> Dop853<OVector<T, D>, F>
where
    f64: From<T>,
    T: Copy + SubsetOf<f64> + Scalar + ClosedAdd + ClosedMul + ClosedSub + Zero,
    F: System<OVector<T, D>>,
    DefaultAllocator: Allocator<T, D>,
{
    /// Default initializer for the structure.
    ///
    /// # Arguments
    ///
    /// * `f`       - Structure implementing the System<V> trait
    /// * `x`       - Initial value of the independent variable (usually time)
    /// * `x_end`   - Final value of the independent variable
    /// * `dx`      - Increment in the dense output. This argument has no effect if the output type is Sparse
    /// * `y`       - Initial value of the dependent variable(s)
    /// * `rtol`    - Relative tolerance used in the computation of the adaptive step size
    /// * `atol`    - Absolute tolerance used in the computation of the adaptive step size
    ///
    pub fn new(f: F, x: f64, x_end: f64, dx: f64, y: OVector<T, D>, rtol: f64, atol: f64) -> Self {
        let (rows, cols) = y.shape_generic();
        Self {
            f,
            x,
            x0: x,
            xd: x,
            dx,
            x_old: x,
            x_end,
            y,
            rtol,
            atol,
            x_out: Vec::new(),
            y_out: Vec::new(),
            uround: f64::EPSILON,
            h: 0.0,
            h_old: 0.0,
            n_max: 100000,
            n_stiff: 1000,
            coeffs: Dopri853::new(),
            controller: Controller::default(x, x_end),
            out_type: OutputType::Dense,
            rcont: [
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
            ],
            stats: Stats::new(),
        }
    }

    /// Advanced initializer for the structure.
    ///
    /// # Arguments
    ///
    /// * `f`       - Structure implementing the System<V> trait
    /// * `x`       - Initial value of the independent variable (usually time)
    /// * `x_end`   - Final value of the independent variable
    /// * `dx`      - Increment in the dense output. This argument has no effect if the output type is Sparse
    /// * `y`       - Initial value of the dependent variable(s)
    /// * `rtol`    - Relative tolerance used in the computation of the adaptive step size
    /// * `atol`    - Absolute tolerance used in the computation of the adaptive step size
    /// * `safety_factor`   - Safety factor used in the computation of the adaptive step size. Default is 0.9
    /// * `beta`    - Value of the beta coefficient of the PI controller. Default is 0.0
    /// * `fac_min` - Minimum factor between two successive steps. Default is 0.333
    /// * `fac_max` - Maximum factor between two successive steps. Default is 6.0
    /// * `h_max`   - Maximum step size. Default is `x_end-x
    /// * `h`       - Initial value of the step size. If h = 0.0, the intial value of h is computed automatically
    /// * `n_max`   - Maximum number of iterations. Default is 100000
    /// * `n_stiff` - Stifness is tested when the number of iterations is a multiple of n_stiff. Default is 1000
    /// * `out_type`    - Type of the output. Must be a variant of the OutputType enum. Default is Dense
    ///
    #[allow(clippy::too_many_arguments)]
    pub fn from_param(
        f: F,
        x: f64,
        x_end: f64,
        dx: f64,
        y: OVector<T, D>,
        rtol: f64,
        atol: f64,
        safety_factor: f64,
        beta: f64,
        fac_min: f64,
        fac_max: f64,
        h_max: f64,
        h: f64,
        n_max: u32,
        n_stiff: u32,
        out_type: OutputType,
    ) -> Self {
        let alpha = 1.0 / 8.0 - beta * 0.2;
        let (rows, cols) = y.shape_generic();
        Self {
            f,
            x,
            x0: x,
            xd: x,
            dx,
            x_old: x,
            x_end,
            y,
            rtol,
            atol,
            x_out: Vec::new(),
            y_out: Vec::new(),
            uround: f64::EPSILON,
            h,
            h_old: h,
            n_max,
            n_stiff,
            coeffs: Dopri853::new(),
            controller: Controller::new(
                alpha,
                beta,
                fac_max,
                fac_min,
                h_max,
                safety_factor,
                sign(1.0, x_end - x),
            ),
            out_type,
            rcont: [
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
                OVector::zeros_generic(rows, cols),
            ],
            stats: Stats::new(),
        }
    }

    /// Core integration method (verification stub).
    pub fn integrate(&mut self) -> Result<Stats, IntegrationError> {
        let n = self.y.len();
        let mut y0 = [0.0; 3];
        for i in 0..n.min(3) {
            y0[i] = f64::from(self.y[i]);
        }
        let (rows, cols) = self.y.shape_generic();
        let call = {
            let f = &self.f;
            crate::verif::run(
                self.x,
                self.x_end,
                self.dx,
                y0,
                self.rtol,
                self.atol,
                self.out_type == OutputType::Dense,
                &|x, y| {
                    let mut v = OVector::zeros_generic(rows, cols);
                    for i in 0..n.min(3) {
                        v[i] = y[i].to_subset_unchecked();
                    }
                    let mut d = OVector::zeros_generic(rows, cols);
                    f.system(x, &v, &mut d);
                    let mut dy = [0.0; 3];
                    for i in 0..n.min(3) {
                        dy[i] = f64::from(d[i]);
                    }
                    dy
                },
            )
        };
        if call.failed {
            return Err(IntegrationError::StepSizeUnderflow { x: self.x });
        }
        for (i, x) in call.x_out.iter().enumerate() {
            let mut v = OVector::zeros_generic(rows, cols);
            for j in 0..n.min(3) {
                v[j] = call.y_out[i][j].to_subset_unchecked();
            }
            let mut d = OVector::zeros_generic(rows, cols);
            for j in 0..n.min(3) {
                d[j] = call.dy_out[i][j].to_subset_unchecked();
            }
            let stop = i > 0 && self.f.solout(*x, &v, &d);
            self.x_out.push(*x);
            self.y_out.push(v);
            if stop {
                break;
            }
        }
        Ok(self.stats)
    }

    /// Getter for the independent variable's output.
    pub fn x_out(&self) -> &Vec<f64> {
        &self.x_out
    }

    /// Getter for the dependent variables' output.
    pub fn y_out(&self) -> &Vec<OVector<T, D>> {
        &self.y_out
    }
}

fn sign(a: f64, b: f64) -> f64 {
    if b > 0.0 {
        a.abs()
    } else {
        -a.abs()
    }
}
