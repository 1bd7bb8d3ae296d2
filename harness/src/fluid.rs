//! C06: thermodynamic consistency of the ideal gas models
use crate::sym;
use sett_rs::fluid::{Fluid, IdealGas};

const TREF: f64 = 250.0;

fn consistency(gas: &IdealGas, R: f64, c: [f64; 6]) {
    let T = sym::real("T", 1.0, 5000.0);
    let P = sym::real("P", 1., 1e9);
    let d = gas.dens(T, P);
    sym::obs("enth", 0, gas.enth(T, P));
    sym::obs("inte", 0, gas.inte(T, P));
    sym::eq("gas law", P, d * R * T);
    sym::eq("specific heat", gas.cp(T, P), poly(c, T));
    sym::eq("dd_dP_T", gas.dd_dP_T(T, P), sym::deriv(&|p| gas.dens(T, p), P, P * 1e-3));
    sym::eq("dd_dT_P", gas.dd_dT_P(T, P), sym::deriv(&|t| gas.dens(t, P), T, T * 1e-3));

    // enthalpy and internal energy vanish at the reference temperature
    let scale = gas.cp(T, P) * T;
    sym::eq_scaled("enth ref", 0, gas.enth(TREF, P), 0.0, scale);
    sym::eq_scaled("inte ref", 0, gas.inte(TREF, P), 0.0, scale);

    // and differ by the flow work up to a constant
    let T2 = sym::real("T2", 1.0, 5000.0);
    let P2 = sym::real("P2", 1., 1e9);
    let flow_work = |t: f64, p: f64| gas.enth(t, p) - gas.inte(t, p) - p / gas.dens(t, p);
    sym::eq_scaled("flow work", 0, flow_work(T, P), flow_work(T2, P2), gas.enth(T, P) + gas.enth(T2, P2));

    // neither depends on pressure
    sym::eq_scaled("du_dP_T", 0, gas.du_dP_T(T, P), sym::deriv(&|p| gas.inte(T, p), P, P * 1e-3), 1e-3 * scale / P);

    // the reported derivatives and the specific heat are those of the properties
    let wrong = |t: f64| (t - TREF) * poly([c[0], c[1] / 2., c[2] / 3., c[3] / 4., c[4] / 5., c[5] / 6.], t);
    let dwrong = sym::deriv(&wrong, T, T * 1e-3);
    let dh = sym::deriv(&|t| gas.enth(t, P), T, T * 1e-3);
    let du = sym::deriv(&|t| gas.inte(t, P), T, T * 1e-3);
    sym::eq_known("dh_dT", 0, dh, gas.cp(T, P), dwrong, scale / T, "F3-hydrogen-enthalpy");
    sym::eq_known("du_dT", 0, du, gas.du_dT_P(T, P), dwrong - R, scale / T, "F3-hydrogen-enthalpy");
    sym::eq("cp minus cv", gas.cp(T, P) - gas.du_dT_P(T, P), R);
    sym::cover("consistency");
}
fn poly(a: [f64; 6], x: f64) -> f64 {
    a[0] + x * (a[1] + x * (a[2] + x * (a[3] + x * (a[4] + x * a[5]))))
}

#[no_mangle]
pub fn c06_helium() {
    consistency(&IdealGas::helium(), 2077.23, [5193.17, 0., 0., 0., 0., 0.]);
}

#[no_mangle]
pub fn c06_hydrogen() {
    consistency(
        &IdealGas::hydrogen(),
        4124.2,
        [12471.4839, 13.319_443_2, -3.477_828_06e-2, 4.317_848_38e-5, -2.428_833_35e-8, 5.142_898_38e-12],
    );
}
