//! C01, C02, C21: configurations
use crate::de::{m, one, V};
use crate::sym;
use ode_solvers::verif;
use serde::Deserialize;
use sett_rs::api::RunResults;
use sett_rs::fluid::IdealGas;
use sett_rs::types::{
    ConvergenceTolerance, HeatExchanger, LoopTolerance, MaxIters, OdeTolerance, ParasiticPower, RunError, RunInputs,
    RunSettings,
};
use sett_rs::ws::{sinusoidal_drive::Geometry, Parasitics, SinusoidalDrive, ThermalResistance, WorkingSpaces};
use sett_rs::{chx, hhx, regen, run_engine, Components, Config, Engine, Legacy, LuSolver};
use std::f64::consts::PI;

const CONDUCTANCE: u32 = 1;
const RHOMBIC: u32 = 1;

/// The models a configuration selects
#[derive(Clone, Copy)]
struct Models {
    fluid: u32,
    ws: u32,
    chx: u32,
    regen: u32,
    hhx: u32,
    /// infinite thermal resistances: 1 compression space, 2 expansion space
    adiabatic: u32,
}
fn any_models() -> Models {
    Models {
        fluid: sym::choice("fluid", 2),
        ws: sym::choice("ws", 2),
        chx: sym::choice("chx", 2),
        regen: sym::choice("regen", 2),
        hhx: sym::choice("hhx", 2),
        adiabatic: sym::choice("adiabatic", 4),
    }
}

/// Every parameter a configuration can contain
struct Params {
    chx: [f64; 4],
    hhx: [f64; 5],
    regen: [f64; 4],
    ws: [f64; 13],
    inner: (f64, f64, u32),
    outer: (f64, f64, u32),
    ode: (f64, f64, u32),
    temp_sink: f64,
    temp_source: f64,
    pres_zero: f64,
}
/// Sizes
fn size(name: &'static str) -> f64 {
    sym::real(name, 1e-9, 1e9)
}
/// Losses and resistances, which may be zero
fn wide(name: &'static str) -> f64 {
    sym::real(name, 0., 1e9)
}
fn params(mo: Models, counts: (u32, u32, u32)) -> Params {
    let r = |bit: u32, n: &'static str| if mo.adiabatic & bit != 0 { f64::INFINITY } else { sym::real(n, 1e-6, 1e6) };
    let rhombic = mo.ws == RHOMBIC;
    Params {
        // volume, approach or conductance, resistance, mechanical, thermal
        chx: [size("chx.vol"), sym::real("chx.DT", 0.1, 150.), wide("chx.R_hyd"), wide("chx.W")],
        hhx: [size("hhx.vol"), sym::real("hhx.DT", 0.1, 150.), wide("hhx.R_hyd"), wide("hhx.W"), wide("hhx.Q")],
        regen: [size("regen.vol"), sym::real("regen.DT", 0.1, 150.), wide("regen.R_hyd"), wide("regen.Q")],
        ws: [
            sym::real("ws.frequency", 0.5, 500.),
            if rhombic { sym::real("ws.L_conn", 0.12, 0.5) } else { sym::real("ws.V_swept_c", 1e-6, 1e3) },
            if rhombic { sym::real("ws.r_crank", 1e-3, 0.05) } else { sym::real("ws.V_swept_e", 1e-6, 1e3) },
            if rhombic { sym::real("ws.eccentricity", 0.05, 0.06) } else { sym::real("ws.phase_angle", -720., 720.) },
            wide("ws.V_clearance_c"),
            wide("ws.V_clearance_e"),
            r(1, "ws.R_c"),
            r(2, "ws.R_e"),
            wide("ws.W_c"),
            wide("ws.W_e"),
            wide("ws.Q_e"),
            sym::real("ws.D_p", 1e-2, 1.),
            sym::real("ws.D_d", 1e-2, 1.),
        ],
        inner: (sym::real("inner.abs", 1e-9, 1e6), sym::real("inner.rel", 1e-9, 1e3), counts.0),
        outer: (sym::real("outer.abs", 1e-9, 1e6), sym::real("outer.rel", 1e-9, 1e3), counts.1),
        ode: (sym::real("ode.abs", 1e-15, 1e3), sym::real("ode.rel", 1e-15, 1e3), counts.2),
        temp_sink: sym::real("temp_sink", 50., 500.),
        temp_source: sym::real("temp_source", 850., 3000.),
        pres_zero: sym::real("pres_zero", 1e4, 1e9),
    }
}
fn f(x: f64) -> V {
    V::F(x)
}
fn second(model: u32) -> &'static str {
    if model == CONDUCTANCE { "UA" } else { "DT" }
}
fn chx_params(p: &Params, model: u32) -> V {
    let [v, a, r, w] = p.chx;
    m(vec![("vol", f(v)), (second(model), f(a)), ("R_hyd", f(r)), ("W_parasitic", f(w))])
}
fn hhx_params(p: &Params, model: u32) -> V {
    let [v, a, r, w, q] = p.hhx;
    m(vec![("vol", f(v)), (second(model), f(a)), ("R_hyd", f(r)), ("W_parasitic", f(w)), ("Q_parasitic", f(q))])
}
fn regen_params(p: &Params, model: u32) -> V {
    let [v, a, r, q] = p.regen;
    m(vec![("vol", f(v)), (second(model), f(a)), ("R_hyd", f(r)), ("Q_parasitic", f(q))])
}
fn ws_params(p: &Params, model: u32) -> V {
    let w = p.ws;
    let mut v = vec![
        ("frequency", f(w[0])),
        ("V_clearance_c", f(w[4])),
        ("V_clearance_e", f(w[5])),
        ("R_c", f(w[6])),
        ("R_e", f(w[7])),
        ("W_parasitic_c", f(w[8])),
        ("W_parasitic_e", f(w[9])),
        ("Q_parasitic_e", f(w[10])),
    ];
    if model == RHOMBIC {
        v.push(("L_conn", f(w[1])));
        v.push(("r_crank", f(w[2])));
        v.push(("eccentricity", f(w[3])));
        v.push(("D_p", f(w[11])));
        v.push(("D_d", f(w[12])));
    } else {
        v.push(("V_swept_c", f(w[1])));
        v.push(("V_swept_e", f(w[2])));
        v.push(("phase_angle", f(w[3])));
    }
    m(v)
}
fn hx_name(model: u32) -> &'static str {
    if model == CONDUCTANCE { "fixed_conductance" } else { "fixed_approach" }
}
fn tolerance(t: (f64, f64, u32)) -> V {
    m(vec![("abs", f(t.0)), ("rel", f(t.1))])
}
fn loop_settings(t: (f64, f64, u32)) -> V {
    m(vec![("tolerance", tolerance(t)), ("max_iterations", V::U(t.2))])
}
fn modern(mo: Models, fluid: V, p: &Params) -> V {
    m(vec![
        (
            "engine",
            m(vec![
                ("fluid", fluid),
                (
                    "components",
                    m(vec![
                        ("chx", one(hx_name(mo.chx), chx_params(p, mo.chx))),
                        ("hhx", one(hx_name(mo.hhx), hhx_params(p, mo.hhx))),
                        ("regen", one(hx_name(mo.regen), regen_params(p, mo.regen))),
                        ("ws", one(if mo.ws == RHOMBIC { "rhombic" } else { "sinusoidal" }, ws_params(p, mo.ws))),
                    ]),
                ),
            ]),
        ),
        (
            "solver",
            m(vec![
                ("inner_loop", loop_settings(p.inner)),
                ("outer_loop", loop_settings(p.outer)),
                ("ode", m(vec![("tolerance", tolerance(p.ode)), ("num_timesteps", V::U(p.ode.2))])),
            ]),
        ),
        (
            "conditions",
            m(vec![("temp_sink", f(p.temp_sink)), ("temp_source", f(p.temp_source)), ("pres_zero", f(p.pres_zero))]),
        ),
    ])
}
fn gas_name(k: u32) -> &'static str {
    if k == 0 { "hydrogen" } else { "helium" }
}
fn modern_config(mo: Models, p: &Params) -> Config {
    let c = Config::deserialize(modern(mo, one(gas_name(mo.fluid), one("model", V::S("ideal_gas"))), p));
    match c {
        Ok(c) => c,
        Err(_) => panic!(),
    }
}

fn any_gas() -> HeatExchanger {
    HeatExchanger {
        temp: sym::real("temp", 200., 2000.),
        pres: sym::real("pres", 1e4, 1e8),
        dens: sym::real("dens", 1e-2, 1e2),
        cp: sym::real("cp", 1e2, 5e4),
        m_dot: sym::real("m_dot", 1e-3, 10.),
        Q_dot: sym::real("Q_dot", 1., 1e6),
    }
}
fn power(name: [&'static str; 3], x: ParasiticPower, thermal: f64, mechanical: f64) {
    sym::eq(name[0], x.thermal, thermal);
    sym::eq(name[1], x.mechanical, mechanical);
    sym::eq(name[2], x.electrical, 0.);
}
/// Checks that the components are those the parameters describe
fn described(mo: Models, p: &Params, c: &Components) {
    let gas = any_gas();
    let cap = gas.cp * gas.m_dot;
    let span = (sym::real("T_k", 200., 500.), sym::real("T_l", 500., 2000.));
    let drop = |ua: f64| {
        (gas.Q_dot / cap) / f64::exp_m1(ua / cap)
    };

    let s = chx::State { hxr: gas, sink_temp: sym::real("sink", 200., 400.) };
    let [v, a, r, w] = p.chx;
    sym::eq("chx volume", c.chx.volume(), v);
    sym::eq("chx resistance", c.chx.hydraulic_resistance(&s), r);
    power(["chx thermal", "chx mechanical", "chx electrical"], c.chx.parasitics(&s), 0., w);
    let approach = if mo.chx == CONDUCTANCE { drop(a) } else { a };
    sym::eq_scaled("chx approach", 0, c.chx.approach(&s), approach, gas.Q_dot / cap);
    if mo.chx != CONDUCTANCE {
        sym::eq("chx initial approach", c.chx.initial_approach(), a);
    }

    let s = hhx::State { hxr: gas, source_temp: sym::real("source", 400., 2000.) };
    let [v, a, r, w, q] = p.hhx;
    sym::eq("hhx volume", c.hhx.volume(), v);
    sym::eq("hhx resistance", c.hhx.hydraulic_resistance(&s), r);
    power(["hhx thermal", "hhx mechanical", "hhx electrical"], c.hhx.parasitics(&s), q, w);
    let approach = if mo.hhx == CONDUCTANCE { drop(a) } else { a };
    sym::eq_scaled("hhx approach", 0, c.hhx.approach(&s), approach, gas.Q_dot / cap);
    if mo.hhx != CONDUCTANCE {
        sym::eq("hhx initial approach", c.hhx.initial_approach(), a);
    }

    let s = regen::State { hxr: gas, temp_chx: span.0, temp_hhx: span.1 };
    let [v, a, r, q] = p.regen;
    sym::eq("regen volume", c.regen.volume(), v);
    sym::eq("regen resistance", c.regen.hydraulic_resistance(&s), r);
    power(["regen thermal", "regen mechanical", "regen electrical"], c.regen.parasitics(&s), q, 0.);
    let full = (span.1 - span.0) / (1. + a / cap / 2.);
    sym::eq("regen approach", c.regen.approach(&s), if mo.regen == CONDUCTANCE { full } else { a });
    if mo.regen != CONDUCTANCE {
        sym::eq("regen initial approach", c.regen.initial_approach(), a);
    }

    let s = crate::drives::ws_state();
    let w = p.ws;
    sym::eq("frequency", c.ws.frequency(&s), w[0]);
    let par = c.ws.parasitics(&s);
    power(["comp thermal", "comp mechanical", "comp electrical"], par.comp, 0., w[8]);
    power(["exp thermal", "exp mechanical", "exp electrical"], par.exp, w[10], w[9]);
    let res = c.ws.thermal_resistance(&s);
    sym::eq("R_c", res.comp, w[6]);
    sym::eq("R_e", res.exp, w[7]);
    let t = crate::drives::moment(w[0]).1;
    let (vc, ve) = c.ws.volumes(&s)(t);
    let theta = 2. * PI * w[0] * t;
    if mo.ws == RHOMBIC {
        let (l, cr, e) = (w[1], w[2], w[3]);
        let along = |x: f64| (l * l - x * x).sqrt();
        let b = along(e + cr * theta.cos());
        let near = ((l - cr) * (l - cr) - e * e).sqrt();
        let (ap, ad) = (PI / 4. * w[11] * w[11], PI / 4. * w[12] * w[12]);
        let (sc, se) = (w[4] + ap * l, w[5] + ad * l);
        sym::eq_scaled("V_c", 0, vc.value, w[4] + 2. * ap * (along(e - cr) - b), sc);
        sym::eq_scaled("V_e", 0, ve.value, w[5] + ad * (b - near - cr * theta.sin()), se);
    } else {
        sym::eq("V_c", vc.value, w[4] + 0.5 * w[1] * (1. + theta.cos()));
        sym::eq("V_e", ve.value, w[5] + 0.5 * w[2] * (1. + (theta + w[3] * PI / 180.).cos()));
    }
    sym::cover("described");
}

#[no_mangle]
pub fn c01_components() {
    let mo = any_models();
    if sym::choice("another", 2) == 1 {
        another(mo);
    }
    let p = params(mo, (3, 2, 20));
    let c = modern_config(mo, &p);
    described(mo, &p, &c.engine.components.into());
}
/// An engine of the same models is built and used before
fn another(mo: Models) {
    let p = Params {
        chx: [3e-5, 33., 3e3, 3.],
        hhx: [5e-5, 55., 5e3, 5., 55.],
        regen: [7e-5, 7., 7e3, 77.],
        ws: if mo.ws == RHOMBIC {
            [40., 0.15, 0.02, 0.055, 1e-5, 2e-5, 11., 13., 17., 19., 23., 0.07, 0.06]
        } else {
            [40., 1e-4, 2e-4, 77., 1e-5, 2e-5, 11., 13., 17., 19., 23., 0., 0.]
        },
        inner: (1e-3, 1e-4, 30),
        outer: (1e-5, 1e-6, 40),
        ode: (1e-7, 1e-8, 50),
        temp_sink: 310.,
        temp_source: 910.,
        pres_zero: 3e6,
    };
    let c: Components = modern_config(mo, &p).engine.components.into();
    let hxr = HeatExchanger { temp: 400., pres: 3e6, dens: 3., cp: 5200., m_dot: 0.1, Q_dot: 300. };
    let (k, l) = (chx::State { hxr, sink_temp: 310. }, hhx::State { hxr, source_temp: 910. });
    let r = regen::State { hxr, temp_chx: 350., temp_hhx: 850. };
    let w = crate::drives::ws_state();
    let sum = c.chx.volume() + c.chx.approach(&k) + c.chx.initial_approach() + c.chx.hydraulic_resistance(&k) + c.chx.parasitics(&k).mechanical
        + c.hhx.volume() + c.hhx.approach(&l) + c.hhx.initial_approach() + c.hhx.hydraulic_resistance(&l) + c.hhx.parasitics(&l).thermal
        + c.regen.volume() + c.regen.approach(&r) + c.regen.initial_approach() + c.regen.hydraulic_resistance(&r) + c.regen.parasitics(&r).thermal
        + c.ws.frequency(&w) + c.ws.parasitics(&w).exp.thermal + c.ws.thermal_resistance(&w).comp + c.ws.volumes(&w)(0.01).1.value;
    sym::check("numbers", !sum.is_nan());
    sym::cover("after another");
}

/// The conditions and settings reach the run
#[no_mangle]
pub fn c01_settings() {
    let mo = Models { fluid: 0, ws: 0, chx: 0, regen: 0, hhx: 0, adiabatic: 0 };
    const ITERATIONS: [u32; 9] = [0, 1, 2, 10, 20, 21, 100, 65_537, u32::MAX];
    const POINTS: [u32; 11] = [2, 3, 4, 20, 100, 101, 256, 1000, 1025, 65_537, u32::MAX];
    let counts = (
        ITERATIONS[sym::choice("inner", 9) as usize],
        ITERATIONS[sym::choice("outer", 9) as usize],
        POINTS[sym::choice("points", 11) as usize],
    );
    let p = params(mo, counts);
    let c = modern_config(mo, &p);
    let i: RunInputs = c.conditions.into();
    sym::eq("temp_sink", i.temp_sink, p.temp_sink);
    sym::eq("temp_source", i.temp_source, p.temp_source);
    sym::eq("pres_zero", i.pres_zero, p.pres_zero);
    let s: RunSettings = c.solver.into();
    sym::eq("inner abs", s.loop_tol.inner.abs, p.inner.0);
    sym::eq("inner rel", s.loop_tol.inner.rel, p.inner.1);
    sym::eq("outer abs", s.loop_tol.outer.abs, p.outer.0);
    sym::eq("outer rel", s.loop_tol.outer.rel, p.outer.1);
    sym::eq("ode abs", s.ode_tol.abs, p.ode.0);
    sym::eq("ode rel", s.ode_tol.rel, p.ode.1);
    sym::check("inner iterations", s.max_iters.inner == p.inner.2 as usize);
    sym::check("outer iterations", s.max_iters.outer == p.outer.2 as usize);
    sym::check("resolution", s.resolution == p.ode.2);
    sym::cover("settings");
}

/// Without its `k`-th entry, counting every entry of every map
fn without(v: V, k: &mut usize) -> V {
    let V::M(entries) = v else { return v };
    let mut rest = Vec::new();
    for (name, x) in entries {
        if *k == 0 {
            *k = usize::MAX;
            continue;
        }
        if *k != usize::MAX {
            *k -= 1;
        }
        rest.push((name, without(x, k)));
    }
    V::M(rest)
}
/// A configuration that lacks something is rejected, not completed by a default
#[no_mangle]
pub fn c01_missing() {
    let mo = Models { fluid: 0, ws: sym::choice("ws", 2), chx: sym::choice("hx", 2), regen: 0, hhx: 0, adiabatic: 0 };
    let mo = Models { regen: mo.chx, hhx: mo.chx, ..mo };
    let p = params(mo, (1, 2, 3));
    let fluid = one("hydrogen", one("model", V::S("ideal_gas")));
    let mut k = sym::choice("entry", 64) as usize;
    let v = without(modern(mo, fluid, &p), &mut k);
    let c = Config::deserialize(v);
    if k == usize::MAX {
        sym::check("rejected", c.is_err());
        sym::cover("incomplete");
    } else {
        sym::check("accepted", c.is_ok());
        sym::cover("complete");
    }
}

fn legacy_hx(model: u32, params: V) -> V {
    m(vec![("model", V::S(if model == CONDUCTANCE { "FixedConductance" } else { "FixedApproach" })), ("params", params)])
}
#[no_mangle]
pub fn c02_legacy() {
    let mo = any_models();
    let points = [2, 20, 101, 257, 1001, 100_000][sym::choice("points", 6) as usize];
    let p = params(mo, (20, 20, points));
    // ideal gas, REFPROP, fitted hydrogen
    let kind = sym::choice("fluid_model", 3);
    let gas = V::S(if mo.fluid == 0 { "Hydrogen" } else { "Helium" });
    let (old, new) = match kind {
        0 => (
            m(vec![("model", V::S("IdealGas")), ("params", one("name", gas))]),
            one(gas_name(mo.fluid), one("model", V::S("ideal_gas"))),
        ),
        1 => (
            m(vec![("model", V::S("RealGasRefprop")), ("params", one("name", gas))]),
            one(gas_name(mo.fluid), one("model", V::S("ref_prop"))),
        ),
        _ => (one("model", V::S("Hydrogen")), one("hydrogen", one("model", V::S("custom")))),
    };
    let legacy = m(vec![
        ("fluid", old),
        (
            "ws",
            m(vec![("model", V::S(if mo.ws == RHOMBIC { "Rhombic" } else { "Sinusoidal" })), ("params", ws_params(&p, mo.ws))]),
        ),
        ("chx", legacy_hx(mo.chx, chx_params(&p, mo.chx))),
        ("regen", legacy_hx(mo.regen, regen_params(&p, mo.regen))),
        ("hhx", legacy_hx(mo.hhx, hhx_params(&p, mo.hhx))),
        (
            "solver",
            m(vec![
                ("innerLoopTolerance", tolerance(p.inner)),
                ("outerLoopTolerance", tolerance(p.outer)),
                ("odeTolerance", tolerance(p.ode)),
                ("odeSolver", V::S("ode45")),
                ("timeResolution", V::U(points)),
            ]),
        ),
        ("conditions", m(vec![("T_cold", f(p.temp_sink)), ("T_hot", f(p.temp_source)), ("P_0", f(p.pres_zero))])),
    ]);
    let (old, new) = match (Legacy::deserialize(legacy), Config::deserialize(modern(mo, new, &p))) {
        (Ok(a), Ok(b)) => (Config::from(a), b),
        _ => panic!(),
    };
    sym::check("fluid", old.engine.fluid == new.engine.fluid);
    sym::check("chx", old.engine.components.chx == new.engine.components.chx);
    sym::check("regen", old.engine.components.regen == new.engine.components.regen);
    sym::check("hhx", old.engine.components.hhx == new.engine.components.hhx);
    sym::check("ws", old.engine.components.ws == new.engine.components.ws);
    sym::check("solver", old.solver == new.solver);
    sym::check("conditions", old.conditions == new.conditions);
    sym::check("all", old == new);
    // and the same, field by field
    sym::eq("temp_sink", old.conditions.temp_sink, p.temp_sink);
    sym::eq("temp_source", old.conditions.temp_source, p.temp_source);
    sym::eq("pres_zero", old.conditions.pres_zero, p.pres_zero);
    sym::eq("inner abs", old.solver.inner_loop.tolerance.abs, p.inner.0);
    sym::eq("inner rel", old.solver.inner_loop.tolerance.rel, p.inner.1);
    sym::eq("outer abs", old.solver.outer_loop.tolerance.abs, p.outer.0);
    sym::eq("outer rel", old.solver.outer_loop.tolerance.rel, p.outer.1);
    sym::eq("ode abs", old.solver.ode.tolerance.abs, p.ode.0);
    sym::eq("ode rel", old.solver.ode.tolerance.rel, p.ode.1);
    sym::check("iterations", old.solver.inner_loop.max_iterations == 20 && old.solver.outer_loop.max_iterations == 20);
    sym::check("timesteps", old.solver.ode.num_timesteps == points);
    if kind == 0 {
        described(mo, &p, &old.engine.components.into());
    }
    sym::cover("legacy");
}

fn by_hand(mo: Models, p: &Params) -> Components {
    let chx_par = ParasiticPower { mechanical: p.chx[3], ..ParasiticPower::default() };
    let hhx_par = ParasiticPower { mechanical: p.hhx[3], thermal: p.hhx[4], ..ParasiticPower::default() };
    let regen_par = ParasiticPower { thermal: p.regen[3], ..ParasiticPower::default() };
    let (c, h, r) = (p.chx, p.hhx, p.regen);
    Components {
        chx: if mo.chx == CONDUCTANCE {
            Box::new(chx::FixedConductance::new(c[0], c[2], c[1], chx_par))
        } else {
            Box::new(chx::FixedApproach::new(c[0], c[2], c[1], chx_par))
        },
        hhx: if mo.hhx == CONDUCTANCE {
            Box::new(hhx::FixedConductance::new(h[0], h[2], h[1], hhx_par))
        } else {
            Box::new(hhx::FixedApproach::new(h[0], h[2], h[1], hhx_par))
        },
        regen: if mo.regen == CONDUCTANCE {
            Box::new(regen::FixedConductance::new(r[0], r[2], r[1], regen_par))
        } else {
            Box::new(regen::FixedApproach::new(r[0], r[2], r[1], regen_par))
        },
        ws: if mo.ws == RHOMBIC {
            let c = sett_rs::ws::Config::deserialize(one("rhombic", ws_params(p, RHOMBIC)));
            match c {
                Ok(sett_rs::ws::Config::Rhombic(c)) => {
                    let d: sett_rs::ws::RhombicDrive = c.into();
                    Box::new(d)
                }
                _ => panic!(),
            }
        } else {
            let w = p.ws;
            Box::new(SinusoidalDrive {
                frequency: w[0],
                phase_angle: w[3],
                comp_geometry: Geometry { clearance_volume: w[4], swept_volume: w[1] },
                exp_geometry: Geometry { clearance_volume: w[5], swept_volume: w[2] },
                thermal_resistance: ThermalResistance { comp: w[6], exp: w[7] },
                parasitics: Parasitics {
                    comp: ParasiticPower { mechanical: w[8], ..ParasiticPower::default() },
                    exp: ParasiticPower { mechanical: w[9], thermal: w[10], ..ParasiticPower::default() },
                },
            })
        },
    }
}

#[no_mangle]
pub fn c21_run_engine() {
    // one model differs from the fixed approach exchangers and the sinusoidal drive at a time
    let variant = sym::choice("variant", 6);
    let pick = |k: u32| u32::from(variant == k);
    let mo = Models {
        fluid: sym::choice("fluid", 2),
        ws: pick(1),
        chx: pick(2),
        regen: pick(3),
        hhx: pick(4),
        adiabatic: if variant == 0 { 0 } else { 3 },
    };
    let (inner, outer, points) = (2, 1, sym::param("points"));
    let p = params(mo, (inner, outer, points));
    crate::runs::ode(true, false, false);
    sym::la(sym::La::Free {
        lo: [0.01, 0.01, -1., -1., -1e4, -1e4, -1e4, -1e5, -1e5, -1e9],
        hi: [1., 1., -0.01, -0.01, 1e4, 1e4, 1e4, 1e5, 1e5, 1e9],
    });
    let a = run_engine(modern_config(mo, &p));
    let inputs = RunInputs { pres_zero: p.pres_zero, temp_sink: p.temp_sink, temp_source: p.temp_source };
    let settings = RunSettings {
        resolution: points,
        loop_tol: LoopTolerance {
            inner: ConvergenceTolerance { abs: p.inner.0, rel: p.inner.1 },
            outer: ConvergenceTolerance { abs: p.outer.0, rel: p.outer.1 },
        },
        ode_tol: OdeTolerance { abs: p.ode.0, rel: p.ode.1 },
        max_iters: MaxIters { inner: inner as usize, outer: outer as usize },
    };
    let fluid = if mo.fluid == 0 { IdealGas::hydrogen() } else { IdealGas::helium() };
    let calls = verif::calls().len();
    let systems = sym::la_calls();
    let b = Engine::run::<LuSolver>(by_hand(mo, &p), fluid, inputs, settings).map(RunResults::from);
    sym::check("same number of integrations", verif::calls().len() == 2 * calls);
    // the first system of equations tells whether fluid, components and conditions are the same
    let mut same = true;
    if systems > 0 && sym::la_calls() > systems {
        for i in 0..10 {
            for j in 0..10 {
                let (x, y) = (sym::la_a(0, i, j), sym::la_a(systems, i, j));
                sym::eq_i("first system", 10 * i + j, x, y);
                same &= sym::same(x, y);
            }
        }
    }
    if !same {
        return;
    }
    match (a, b) {
        (Ok(a), Ok(b)) => {
            sym::cover("both succeed");
            equal_results(&a, &b);
        }
        (Err(a), Err(b)) => {
            sym::check("same error", matches!(a, RunError::InnerLoop) == matches!(b, RunError::InnerLoop));
            if matches!(a, RunError::InnerLoop) {
                sym::cover("both fail in the inner loop");
            } else {
                sym::cover("both fail in the outer loop");
            }
        }
        _ => sym::check("same outcome", false),
    }
}
pub fn equal_results(a: &RunResults, b: &RunResults) {
    sym::obs("P_avg", 0, a.pressure.avg);
    let s = |r: &RunResults| {
        [
            r.efficiency.mechanical, r.heat_flow.input, r.heat_flow.rejection, r.heat_flow.chx, r.heat_flow.regen,
            r.heat_flow.hhx, r.mass_flow.chx, r.mass_flow.regen, r.mass_flow.hhx, r.power.ideal_indicated,
            r.power.indicated, r.power.shaft, r.power.net, r.pressure.avg, r.pressure.max, r.pressure.min,
            r.pressure.t_zero, r.regen_imbalance, r.shaft_torque, r.temperature.sink, r.temperature.chx,
            r.temperature.regen_cold, r.temperature.regen_avg, r.temperature.regen_hot, r.temperature.hhx,
            r.temperature.source,
        ]
    };
    let (x, y) = (s(a), s(b));
    for i in 0..x.len() {
        sym::eq_i("scalar", i, x[i], y[i]);
    }
    let (v, w) = (&a.values, &b.values);
    let pairs = [
        (&v.time, &w.time), (&v.P, &w.P), (&v.P_c, &w.P_c), (&v.P_e, &w.P_e), (&v.T_c, &w.T_c), (&v.T_e, &w.T_e),
        (&v.m_dot_ck, &w.m_dot_ck), (&v.m_dot_kr, &w.m_dot_kr), (&v.m_dot_rl, &w.m_dot_rl), (&v.m_dot_le, &w.m_dot_le),
        (&v.Q_dot_k, &w.Q_dot_k), (&v.Q_dot_r, &w.Q_dot_r), (&v.Q_dot_l, &w.Q_dot_l),
    ];
    for (k, (x, y)) in pairs.iter().enumerate() {
        sym::check_i("length", k, x.len() == y.len());
        for i in 0..x.len() {
            sym::eq_i("series", 100 * k + i, x[i], y[i]);
        }
    }
}
