//! Verification stub shared by the integrators: an integration returns an arbitrary trajectory.
//!
//! Contract: the system is evaluated at the initial point first; output follows the dense output loop of
//! the original crate (`while xd <= x { push; xd += dx }`); the first point is the initial state; any
//! later state is an arbitrary function of time for the given problem (initial state, interval,
//! tolerances and initial derivative); the same problem has the same trajectory whatever `dx` is; an
//! integration may fail.
#![allow(static_mut_refs, missing_docs)]
extern "C" {
    fn __v_uf(name: *const u8, len: usize, idx: u32, args: *const f64, n: usize, lo: f64, hi: f64) -> f64;
    fn __v_choice(name: *const u8, len: usize, idx: u32, n: u32) -> u32;
    fn __v_same(a: f64, b: f64) -> bool;
    fn __v_la_calls() -> usize;
    fn __v_assume(c: bool);
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// integrations may fail
    pub may_fail: bool,
    /// trajectories may contain undefined temperatures
    pub may_nan: bool,
    /// evaluate the system at every output point
    pub eval: bool,
    /// the last step ends at `x_old + (x_end - x_old)` for an arbitrary earlier point `x_old`
    pub rounding: bool,
    pub max_points: usize,
    /// an integration with more than `max_points` points fails
    pub long_fails: bool,
    /// an integration may fail although the same problem was integrated before
    pub fails_anew: bool,
    pub lo: [f64; 3],
    pub hi: [f64; 3],
    /// Problems from this one on return to the temperatures they started with, those before it miss them by
    /// at least the second number
    pub repeat: Option<(usize, f64)>,
}

#[derive(Clone)]
pub struct Call {
    pub x0: f64,
    pub x_end: f64,
    pub dx: f64,
    pub rtol: f64,
    pub atol: f64,
    pub y0: [f64; 3],
    pub dy0: [f64; 3],
    pub problem: usize,
    pub failed: bool,
    pub nan: bool,
    pub dense: bool,
    pub x_out: Vec<f64>,
    pub y_out: Vec<[f64; 3]>,
    pub dy_out: Vec<[f64; 3]>,
    /// number of linear systems solved when the point had been evaluated
    pub la_out: Vec<usize>,
}

static mut CFG: Cfg = Cfg {
    may_fail: false,
    may_nan: false,
    eval: false,
    rounding: false,
    max_points: 64,
    long_fails: false,
    fails_anew: false,
    lo: [1e5, 50., 50.],
    hi: [1e8, 3000., 3000.],
    repeat: None,
};
static mut CALLS: Vec<Call> = Vec::new();
static mut PROBLEMS: usize = 0;

pub fn reset(cfg: Cfg) {
    unsafe {
        CFG = cfg;
        CALLS = Vec::new();
        PROBLEMS = 0;
    }
}
pub fn cfg() -> Cfg {
    unsafe { CFG }
}
pub fn calls() -> &'static [Call] {
    unsafe { &CALLS }
}

fn same(a: f64, b: f64) -> bool {
    unsafe { __v_same(a, b) }
}

/// Run the stub; `sys` evaluates the system; `stop` is the user's stop function
#[allow(clippy::too_many_arguments)]
pub fn run(
    x0: f64,
    x_end: f64,
    dx: f64,
    y0: [f64; 3],
    rtol: f64,
    atol: f64,
    dense: bool,
    sys: &dyn Fn(f64, [f64; 3]) -> [f64; 3],
) -> Call {
    let cfg = cfg();
    let dy0 = sys(x0, y0);
    let la0 = unsafe { __v_la_calls() };
    let mut problem = usize::MAX;
    for c in calls() {
        let mut eq = same(c.x0, x0) && same(c.x_end, x_end) && same(c.rtol, rtol) && same(c.atol, atol);
        for j in 0..3 {
            eq = eq && same(c.y0[j], y0[j]) && same(c.dy0[j], dy0[j]);
        }
        if eq {
            problem = c.problem;
        }
    }
    unsafe {
        if problem == usize::MAX {
            problem = PROBLEMS;
            PROBLEMS += 1;
        }
    }
    let mut call = Call {
        x0, x_end, dx, rtol, atol, y0, dy0, problem, dense,
        failed: false,
        nan: false,
        x_out: Vec::new(),
        y_out: Vec::new(),
        dy_out: Vec::new(),
        la_out: Vec::new(),
    };
    let p = problem as u32;
    let failure = if cfg.fails_anew { calls().len() as u32 } else { p };
    if cfg.may_fail && unsafe { __v_choice(b"ode_fail".as_ptr(), 8, failure, 2) } == 1 {
        call.failed = true;
    } else {
        call.nan = cfg.may_nan && unsafe { __v_choice(b"ode_nan".as_ptr(), 7, p, 2) } == 1;
        let x_last = if cfg.rounding {
            let f = unsafe { __v_uf(b"ode_last".as_ptr(), 8, p, core::ptr::null(), 0, 0.0, 1.0) };
            let x_old = x0 + f * (x_end - x0);
            x_old + (x_end - x_old)
        } else {
            x_end
        };
        let mut xd = x0;
        let mut i = 0;
        while i < cfg.max_points && (if dense { xd <= x_last } else { i < 2 }) {
            let x = if dense || i == 0 { xd } else { x_end };
            let mut y = y0;
            if i > 0 {
                for j in 0..3 {
                    y[j] = if call.nan && j > 0 {
                        f64::NAN
                    } else {
                        unsafe { __v_uf(b"traj".as_ptr(), 4, p * 3 + j as u32, &x, 1, cfg.lo[j], cfg.hi[j]) }
                    };
                }
            }
            if let (Some((from, by)), true) = (cfg.repeat, i > 0) {
                for j in 1..3 {
                    if problem >= from {
                        y[j] = y0[j];
                    } else {
                        unsafe { __v_assume((y[j] - y0[j]).abs() >= by) };
                    }
                }
            }
            let dy = if i == 0 {
                dy0
            } else if cfg.eval {
                sys(x, y)
            } else {
                [0.0; 3]
            };
            call.x_out.push(x);
            call.y_out.push(y);
            call.dy_out.push(dy);
            call.la_out.push(if i == 0 { la0 } else { unsafe { __v_la_calls() } });
            xd += dx;
            i += 1;
        }
        call.failed = cfg.long_fails && i == cfg.max_points;
    }
    unsafe { CALLS.push(call.clone()) };
    call
}
