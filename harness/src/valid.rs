//! C23: an admissible engine never meets undefined numbers; C18: the linear solvers offered
use crate::{runs, sym, world};
use sett_rs::api::RunResults;
use sett_rs::fluid::{Fluid, IdealGas};
use sett_rs::types::{ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, ParasiticPower, RunInputs, RunSettings};
use sett_rs::ws::{self, CompVolume, ExpVolume, Parasitics, ThermalResistance, WorkingSpaces};
use sett_rs::{chx, hhx, regen, Components, Engine, LuSolver, QrSolver, SvdDefaultSolver};

/// Every number the solver is given and every number reported is finite, for any flows and rates
#[no_mangle]
pub fn c23_finite() {
    let adiabatic = sym::choice("adiabatic", 4);
    let points = sym::param("points");
    let o = world::Opt { approach: world::Approach::Constant, adiabatic, no_drop: false };
    runs::ode(false, false, true);
    sym::la(sym::La::Free { lo: [0.01, 0.01, 0.01, 0.01, -1e5, -1e5, -1e5, -1e4, -1e4, -1e8], hi: [1., 1., 1., 1., 1e5, 1e5, 1e5, 1e4, 1e4, 1e8] });
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let set = RunSettings {
        resolution: points,
        loop_tol: LoopTolerance { inner: any, outer: any },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    let inputs = RunInputs {
        pres_zero: sym::real("pres_zero", 1e5, 1e8),
        temp_sink: sym::real("temp_sink", 50., 500.),
        temp_source: sym::real("temp_source", 100., 1500.),
    };
    // the regenerator has a temperature span
    let a = world::initial_approaches();
    sym::assume(inputs.temp_source - a[2] - a[1] >= inputs.temp_sink + a[0] + 1.);
    let fluid = if sym::choice("fluid", 2) == 0 { IdealGas::helium() } else { IdealGas::hydrogen() };
    sym::allow_panic(true);
    let r = Engine::run::<LuSolver>(world::components(o), fluid, inputs, set);
    sym::allow_panic(false);
    for k in 0..sym::la_calls().min(2) {
        for i in 0..10 {
            for j in 0..10 {
                sym::check_i("matrix", 10 * i + j, sym::la_a(k, i, j).is_finite());
            }
            sym::check_i("vector", i, sym::la_b(k, i).is_finite());
        }
    }
    let Ok(e) = r else { return };
    let r = RunResults::from(e);
    let (h, m, w, p, t) = (&r.heat_flow, &r.mass_flow, &r.power, &r.pressure, &r.temperature);
    let all = [
        h.input, h.rejection, h.chx, h.regen, h.hhx, m.chx, m.regen, m.hhx, w.ideal_indicated, w.indicated, w.shaft, w.net,
        p.avg, p.max, p.min, p.t_zero, r.regen_imbalance, r.shaft_torque, t.sink, t.chx, t.regen_cold, t.regen_avg, t.regen_hot,
        t.hhx, t.source, r.efficiency.overall,
    ];
    for (i, x) in all.iter().enumerate() {
        sym::check_i("result", i, x.is_finite());
    }
    sym::check("efficiency", h.input == 0. || r.efficiency.mechanical.is_finite());
    let v = &r.values;
    for (k, s) in [&v.time, &v.P, &v.P_c, &v.P_e, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l].iter().enumerate() {
        for x in s.iter() {
            sym::check_i("series", k, x.is_finite());
        }
    }
    sym::cover("finite");
}

/// A drive standing still at fixed volumes, with arbitrary volume rates and losses
struct Rates {
    size: f64,
    /// gas moves from the cold side to the hot side or back, or anyhow
    moves: u32,
}
impl WorkingSpaces for Rates {
    fn frequency(&self, _s: &ws::State) -> f64 {
        50.
    }
    fn volumes(&self, _s: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let v = self.size;
        let (c, e) = match self.moves {
            0 => (sym::real("comp.rate", -0.2, -0.05), sym::real("exp.rate", 0.05, 0.2)),
            1 => (sym::real("comp.rate", 0.05, 0.2), sym::real("exp.rate", -0.2, -0.05)),
            _ => (sym::real("comp.rate", -0.2, 0.2), sym::real("exp.rate", -0.2, 0.2)),
        };
        Box::new(move |_| {
            (CompVolume { value: 3e-4 * v, deriv: v * c }, ExpVolume { value: 2e-4 * v, deriv: v * e })
        })
    }
    fn thermal_resistance(&self, _s: &ws::State) -> ThermalResistance {
        ThermalResistance::default()
    }
    fn parasitics(&self, _s: &ws::State) -> Parasitics {
        let p = |thermal: f64| ParasiticPower { thermal: self.size * thermal, mechanical: 0., electrical: 0. };
        Parasitics { comp: p(sym::real("comp.loss", 0., 1e3)), exp: p(sym::real("exp.loss", 0., 1e3)) }
    }
}

fn machine(v: f64, moves: u32) -> Components {
    let none = || ParasiticPower { thermal: 0., mechanical: 0., electrical: 0. };
    Components {
        ws: Box::new(Rates { size: v, moves }),
        chx: Box::new(chx::FixedApproach::new(4e-5 * v, 0., 40., none())),
        regen: Box::new(regen::FixedApproach::new(5e-5 * v, 0., 10., none())),
        hhx: Box::new(hhx::FixedApproach::new(6e-5 * v, 0., 50., none())),
    }
}
/// The engine, its rates of change and whether the run came to an end
fn solved<T: sett_rs_solver::Solver>(v: f64, moves: u32, hydrogen: bool) -> Option<(Engine<IdealGas>, [f64; 3])> {
    ode_solvers::verif::reset(ode_solvers::verif::Cfg {
        may_fail: false,
        may_nan: false,
        eval: true,
        rounding: false,
        max_points: 4,
        long_fails: false,
        fails_anew: false,
        lo: [1e7, 360., 830.],
        hi: [1e7, 360., 830.],
        repeat: None,
    });
    sym::la(sym::La::Real);
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let set = RunSettings {
        resolution: 2,
        loop_tol: LoopTolerance { inner: any, outer: any },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    let i = RunInputs { pres_zero: 1e7, temp_sink: 300., temp_source: 900. };
    let e = T::run(machine(v, moves), gas(hydrogen), i, set)?;
    let n = e.values.time.len() - 1;
    let d = ode_solvers::verif::calls().last().unwrap().dy_out[n];
    Some((e, d))
}
fn gas(hydrogen: bool) -> IdealGas {
    if hydrogen {
        IdealGas::hydrogen()
    } else {
        IdealGas::helium()
    }
}
mod sett_rs_solver {
    use super::*;
    pub trait Solver {
        fn run(c: Components, f: IdealGas, i: RunInputs, s: RunSettings) -> Option<Engine<IdealGas>>;
    }
    impl Solver for LuSolver {
        fn run(c: Components, f: IdealGas, i: RunInputs, s: RunSettings) -> Option<Engine<IdealGas>> {
            Engine::run::<LuSolver>(c, f, i, s).ok()
        }
    }
    impl Solver for QrSolver {
        fn run(c: Components, f: IdealGas, i: RunInputs, s: RunSettings) -> Option<Engine<IdealGas>> {
            Engine::run::<QrSolver>(c, f, i, s).ok()
        }
    }
    impl Solver for SvdDefaultSolver {
        fn run(c: Components, f: IdealGas, i: RunInputs, s: RunSettings) -> Option<Engine<IdealGas>> {
            Engine::run::<SvdDefaultSolver>(c, f, i, s).ok()
        }
    }
}

const SIZES: [f64; 5] = [1., 0.1, 0.01, 1e-3, 1e-4];

/// The rates and flows found with the LU decomposition satisfy the balances
#[no_mangle]
pub fn c18_lu() {
    let v = SIZES[sym::choice("size", sym::param("sizes")) as usize];
    let hydrogen = sym::choice("fluid", 2) == 1;
    let p = 1e7;
    sym::allow_panic(true);
    let r = solved::<LuSolver>(v, 2, hydrogen);
    sym::allow_panic(false);
    sym::check("run", r.is_some());
    let Some((e, d)) = r else { return };
    let (k, r, l) = (e.components.chx.volume(), e.components.regen.volume(), e.components.hhx.volume());
    let f = gas(hydrogen);
    let n = e.values.time.len() - 1;
    let w = &e.values;
    let s = e.state.ws();
    let (vc, ve) = e.components.ws.volumes(&s)(0.);
    let loss = e.components.ws.parasitics(&s);
    let (t_c, t_e, t) = (w.T_c[n], w.T_e[n], e.state.temp);
    let stored = |t: f64| (f.dens(t, p) * f.du_dP_T(t, p) + f.inte(t, p) * f.dd_dP_T(t, p)) * d[0];
    let warm = |t: f64, r: f64| (f.dens(t, p) * f.du_dT_P(t, p) + f.inte(t, p) * f.dd_dT_P(t, p)) * r;
    let carry = |m: f64, from: f64, to: f64| if m >= 0. { m * f.enth(from, p) } else { m * f.enth(to, p) };
    let (m_ck, m_kr, m_rl, m_le) = (w.m_dot_ck[n], w.m_dot_kr[n], w.m_dot_rl[n], w.m_dot_le[n]);
    let ck = carry(m_ck, t_c, t.chx);
    let kr = carry(m_kr, t.chx, t.regen.cold);
    let rl = carry(m_rl, t.regen.hot, t.hhx);
    let le = carry(m_le, t.hhx, t_e);
    let mass = [
        f.dens(t_c, p) * vc.deriv + vc.value * (f.dd_dT_P(t_c, p) * d[1] + f.dd_dP_T(t_c, p) * d[0]) + m_ck,
        k * f.dd_dP_T(t.chx, p) * d[0] + m_kr - m_ck,
        r * f.dd_dP_T(t.regen.avg, p) * d[0] + m_rl - m_kr,
        l * f.dd_dP_T(t.hhx, p) * d[0] + m_le - m_rl,
        f.dens(t_e, p) * ve.deriv + ve.value * (f.dd_dT_P(t_e, p) * d[2] + f.dd_dP_T(t_e, p) * d[0]) - m_le,
    ];
    let energy = [
        (f.dens(t_c, p) * f.inte(t_c, p) + p) * vc.deriv + vc.value * (warm(t_c, d[1]) + stored(t_c)) + ck + loss.comp.thermal,
        k * stored(t.chx) + kr - ck + w.Q_dot_k[n],
        r * stored(t.regen.avg) + rl - kr + w.Q_dot_r[n],
        l * stored(t.hhx) + le - rl - w.Q_dot_l[n],
        (f.dens(t_e, p) * f.inte(t_e, p) + p) * ve.deriv + ve.value * (warm(t_e, d[2]) + stored(t_e)) - le + loss.exp.thermal,
    ];
    for (i, x) in mass.iter().enumerate() {
        sym::le_i("mass", i, x.abs(), 1e-6 * v, 0.);
    }
    for (i, x) in energy.iter().enumerate() {
        sym::le_i("energy", i, x.abs(), 10. * v, 0.);
    }
    sym::cover("LU");
}

/// The other decompositions lead to the same rates and flows, as long as the directions are not in doubt
#[no_mangle]
pub fn c18_others() {
    let v = SIZES[sym::choice("size", sym::param("sizes")) as usize];
    let moves = sym::choice("moves", 2);
    let svd = sym::choice("svd", 2) == 1;
    let hydrogen = sym::choice("fluid", 2) == 1;
    let r = solved::<LuSolver>(v, moves, hydrogen);
    sym::check("LU run", r.is_some());
    let Some((a, da)) = r else { return };
    let n = a.values.time.len();
    let w = &a.values;
    for i in 0..n {
        for m in [w.m_dot_ck[i], w.m_dot_kr[i], w.m_dot_rl[i], w.m_dot_le[i]] {
            sym::assume(m.abs() >= 1e-3 * v);
        }
    }
    let r = if svd { solved::<SvdDefaultSolver>(v, moves, hydrogen) } else { solved::<QrSolver>(v, moves, hydrogen) };
    sym::check("run", r.is_some());
    let Some((b, db)) = r else { return };
    let u = &b.values;
    for i in 0..n {
        let near = |name: &'static str, x: f64, y: f64, tol: f64| sym::le_i(name, i, (x - y).abs(), tol, 0.);
        near("m_dot_ck", w.m_dot_ck[i], u.m_dot_ck[i], 1e-5 * v);
        near("m_dot_kr", w.m_dot_kr[i], u.m_dot_kr[i], 1e-5 * v);
        near("m_dot_rl", w.m_dot_rl[i], u.m_dot_rl[i], 1e-5 * v);
        near("m_dot_le", w.m_dot_le[i], u.m_dot_le[i], 1e-5 * v);
        near("Q_dot_k", w.Q_dot_k[i], u.Q_dot_k[i], 10. * v);
        near("Q_dot_r", w.Q_dot_r[i], u.Q_dot_r[i], 10. * v);
        near("Q_dot_l", w.Q_dot_l[i], u.Q_dot_l[i], 10. * v);
    }
    sym::le("dP", (da[0] - db[0]).abs(), 1e5, 0.);
    sym::le("dT_c", (da[1] - db[1]).abs(), 1., 0.);
    sym::le("dT_e", (da[2] - db[2]).abs(), 1., 0.);
    sym::cover(if svd { "SVD" } else { "QR" });
}
