//! C12, C13, C14, C15, C17, C19: what is reported about a cycle
use crate::{runs, sym, world};
use ode_solvers::verif;
use sett_rs::api::RunResults;
use sett_rs::fluid::Fluid;
use sett_rs::types::{ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, RunSettings};
use sett_rs::{Engine, LuSolver};
use std::f64::consts::PI;
use world::{AnyFluid, Approach};

const F: AnyFluid = AnyFluid;

/// A successful run over arbitrary conditions and flows; every cycle counts as settled, the temperatures
/// settle after one or two iterations
fn engine(points: u32, o: world::Opt, outer: usize, flow: f64) -> Option<Engine<AnyFluid>> {
    runs::ode(false, false, true);
    sym::la(sym::La::Free {
        lo: [flow, flow, flow, flow, -1e5, -1e5, -1e5, -1e4, -1e4, -1e8],
        hi: [1., 1., 1., 1., 1e5, 1e5, 1e5, 1e4, 1e4, 1e8],
    });
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let some = ConvergenceTolerance { abs: sym::real("outer.abs", 1e-3, 1e2), rel: 1e12 };
    let set = RunSettings {
        resolution: points,
        loop_tol: LoopTolerance { inner: any, outer: if outer > 1 { some } else { any } },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer },
    };
    let e = match Engine::run::<LuSolver>(world::components(o), AnyFluid, world::inputs(), set) {
        Ok(e) => e,
        Err(_) => {
            // only constant approaches are sure to settle at once
            sym::check("settles", outer > 1 || o.approach != Approach::Constant);
            return None;
        }
    };
    let v = &e.values;
    let n = points as usize;
    let ok = [&v.time, &v.P, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l]
        .iter()
        .all(|s| s.len() == n);
    sym::check("lengths", ok);
    if !ok {
        return None;
    }
    Some(e)
}
/// Mean over the cycle by the trapezoidal rule
fn mean(time: &[f64], y: impl Fn(usize) -> f64) -> f64 {
    let n = time.len();
    let mut s = 0.;
    for i in 1..n {
        s += (time[i] - time[i - 1]) * (y(i) + y(i - 1)) / 2.;
    }
    s / (time[n - 1] - time[0])
}
fn points() -> u32 {
    2 + sym::choice("points", sym::param("points") - 1)
}
fn options(approach: Approach, adiabatic: u32) -> world::Opt {
    world::Opt { approach, adiabatic, no_drop: false }
}

#[no_mangle]
pub fn c12_averages() {
    let adiabatic = sym::choice("adiabatic", 4);
    let outer = 1 + sym::choice("outer", 2) as usize;
    let points = if outer == 1 { points() } else { 2 };
    let Some(e) = engine(points, options(Approach::Cycle, adiabatic), outer, -1.) else {
        sym::cover("not settled");
        return;
    };
    let (s, v) = (&e.state, &e.values);
    let t = &v.time;
    sym::eq("average pressure", s.pres.avg, mean(t, |i| v.P[i]));
    sym::eq("initial pressure", s.pres.t_zero, v.P[0]);
    sym::eq("maximum pressure", s.pres.max, v.P.iter().fold(v.P[0], |a, b| a.max(*b)));
    sym::eq("minimum pressure", s.pres.min, v.P.iter().fold(v.P[0], |a, b| a.min(*b)));
    let through = |a: &[f64], b: &[f64]| mean(t, |i| ((a[i] + b[i]) / 2.).abs());
    sym::eq("flow through the cold exchanger", s.mass_flow.chx, through(&v.m_dot_ck, &v.m_dot_kr));
    sym::eq("flow through the regenerator", s.mass_flow.regen, through(&v.m_dot_kr, &v.m_dot_rl));
    sym::eq("flow through the hot exchanger", s.mass_flow.hhx, through(&v.m_dot_rl, &v.m_dot_le));
    let r = e.components.ws.thermal_resistance(&s.ws());
    let (k, l) = (s.temp.chx, s.temp.hhx);
    let from_comp = |i: usize| if adiabatic & 1 != 0 { 0. } else { (v.T_c[i] - k) / r.comp };
    let to_exp = |i: usize| if adiabatic & 2 != 0 { 0. } else { (l - v.T_e[i]) / r.exp };
    sym::eq_scaled("heat of the cold exchanger", 0, s.heat_flow.chx, mean(t, |i| v.Q_dot_k[i] + from_comp(i)), 1e5);
    sym::eq_scaled("heat of the regenerator", 0, s.heat_flow.regen, mean(t, |i| v.Q_dot_r[i]), 1e5);
    sym::eq_scaled("heat of the hot exchanger", 0, s.heat_flow.hhx, mean(t, |i| v.Q_dot_l[i] + to_exp(i)), 1e5);
    if outer == 2 && verif::calls().len() > 2 {
        sym::cover("second iteration");
    } else {
        sym::cover("first iteration");
    }
}

#[no_mangle]
pub fn c13_temperatures() {
    let outer = 1 + sym::choice("outer", 2) as usize;
    unsafe { world::SOURCE_MIN = 100. };
    let i = world::inputs();
    for n in 0..=outer {
        let [c, r, h] = [0, 1, 2].map(|k| world::cycle_approach(k, 2 * n));
        sym::assume(i.temp_source - h - r - i.temp_sink - c >= 1.);
    }
    let Some(e) = engine(2, options(Approach::Cycle, 0), outer, 0.01) else {
        sym::cover("not settled");
        return;
    };
    let n = verif::calls().len();
    // the temperatures of the last cycle follow from what the components answered before it
    let first = n <= 2;
    let a = if first {
        sym::cover("initial approaches");
        world::initial_approaches()
    } else {
        sym::cover("updated approaches");
        [world::cycle_approach(0, n / 2), world::cycle_approach(1, n / 2), world::cycle_approach(2, n / 2)]
    };
    let t = e.state.temp;
    let imbalance = e.state.regen_imbalance.0;
    let (hot, cold) = if imbalance >= 0. { (imbalance, 0.) } else { (0., -imbalance) };
    sym::eq("sink", t.sink, i.temp_sink);
    sym::eq("source", t.source, i.temp_source);
    sym::eq("cold exchanger", t.chx, i.temp_sink + a[0]);
    sym::eq("hot exchanger", t.hhx, i.temp_source - a[2]);
    sym::eq("cold end", t.regen.cold, i.temp_sink + a[0] + a[1] + cold);
    sym::eq("hot end", t.regen.hot, i.temp_source - a[2] - a[1] - hot);
    let x = i.temp_sink + a[0] + (a[1] + cold) / 2.;
    let y = i.temp_source - a[2] - (a[1] + hot) / 2.;
    sym::eq("regenerator", t.regen.avg, (y - x) / (y / x).ln());
    // positive approaches that leave a span
    let (c, h) = (t.regen.cold, t.regen.hot);
    sym::assume(h > c);
    sym::le("order of sink", t.sink, t.chx, 0.);
    sym::le("order of cold exchanger", t.chx, c, 0.);
    sym::le("order of hot end", h, t.hhx, 0.);
    sym::le("order of hot exchanger", t.hhx, t.source, 0.);
}

/// The order of the regenerator's temperatures
#[no_mangle]
pub fn c13_order() {
    let (tk, tl, a) = (sym::real("T_k", 200., 500.), sym::real("T_l", 500., 2000.), sym::real("approach", 1., 300.));
    let imbalance = sym::real("imbalance", -200., 200.);
    let Some(mut e) = engine(2, options(Approach::Constant, 3), 1, 0.01) else { return };
    e.state.regen_imbalance.0 = imbalance;
    let t = e.state.regen_imbalance.regen_temp(tk, tl, a);
    sym::eq("cold end", t.cold, tk + if imbalance < 0. { a - imbalance } else { a });
    sym::eq("hot end", t.hot, tl - if imbalance >= 0. { a + imbalance } else { a });
    // the mean temperature lies between the mid-approach temperatures
    let (x, y) = ((tk + t.cold) / 2., (tl + t.hot) / 2.);
    sym::assume(y > x);
    sym::le("average above cold side", x, t.avg, 0.);
    sym::le("average below hot side", t.avg, y, 0.);
    sym::cover("order");
}

/// What is reported about a run, with what is needed to check it
struct Report {
    r: RunResults,
    t: sett_rs::api::Temperature,
    f: f64,
    dv: Vec<(f64, f64)>,
}
fn report(points: u32, o: world::Opt) -> Option<Report> {
    let e = engine(points, o, 1, -1.)?;
    let w = world::AnyWs(o);
    let dv = e.values.time.iter().map(|t| w.at(*t)).map(|(c, x)| (c.deriv, x.deriv)).collect();
    let t = e.state.temp;
    let t = sett_rs::api::Temperature {
        sink: t.sink,
        chx: t.chx,
        regen_cold: t.regen.cold,
        regen_avg: t.regen.avg,
        regen_hot: t.regen.hot,
        hhx: t.hhx,
        source: t.source,
    };
    let r = RunResults::from(e);
    let n = points as usize;
    let ok = r.values.P_c.len() == n && r.values.P_e.len() == n && r.values.P.len() == n;
    sym::check("lengths of chamber pressures", ok);
    if !ok {
        return None;
    }
    Some(Report { r, t, f: world::frequency(), dv })
}
/// Cycle work per unit time
fn work(r: &Report, y: impl Fn(usize) -> f64) -> f64 {
    let t = &r.r.values.time;
    let mut s = 0.;
    for i in 1..t.len() {
        s += (t[i] - t[i - 1]) * (y(i) + y(i - 1)) / 2.;
    }
    s * r.f
}

#[no_mangle]
pub fn c14_power() {
    let o = options(Approach::Constant, sym::choice("adiabatic", 4));
    let Some(r) = report(points(), o) else { return };
    let v = &r.r.values;
    let hyd = [sym::real("chx.R_hyd", 0., 1e8), sym::real("regen.R_hyd", 0., 1e8), sym::real("hhx.R_hyd", 0., 1e8)];
    let mut scale = 0.;
    for i in 0..v.time.len() {
        let p = v.P[i];
        let drop = |k: usize, t: f64, a: f64, b: f64| hyd[k] * ((a + b) / 2.) / F.dens(t, p);
        let d = [
            drop(0, r.t.chx, v.m_dot_ck[i], v.m_dot_kr[i]),
            drop(1, r.t.regen_avg, v.m_dot_kr[i], v.m_dot_rl[i]),
            drop(2, r.t.hhx, v.m_dot_rl[i], v.m_dot_le[i]),
        ];
        let sum = d[0] + d[1] + d[2];
        let size = if sym::native() { p + d[0].abs() + d[1].abs() + d[2].abs() } else { 1. };
        scale += size;
        sym::eq_scaled("compression space pressure", i, v.P_c[i], p + sum / 2., size);
        sym::eq_scaled("expansion space pressure", i, v.P_e[i], p - sum / 2., size);
    }
    let indicated = work(&r, |i| v.P_c[i] * r.dv[i].0 + v.P_e[i] * r.dv[i].1);
    let ideal = work(&r, |i| v.P[i] * (r.dv[i].0 + r.dv[i].1));
    let q = &r.r.power;
    sym::eq_scaled("indicated power", 0, q.indicated, indicated, scale);
    sym::eq_scaled("ideal indicated power", 0, q.ideal_indicated, ideal, scale);
    let shaft = indicated - sym::real("ws.comp.mechanical", 0., 1e4) - sym::real("ws.exp.mechanical", 0., 1e4);
    sym::eq_scaled("shaft power", 0, q.shaft, shaft, scale);
    let net = shaft - sym::real("chx.mechanical", 0., 1e4) - sym::real("hhx.mechanical", 0., 1e4);
    sym::eq_scaled("net power", 0, q.net, net, scale);
    // torque times angular velocity
    sym::eq_scaled("torque", 0, r.r.shaft_torque * (2. * PI * r.f), shaft, scale);
    sym::cover("power");
}

#[no_mangle]
pub fn c15_heat() {
    let adiabatic = sym::choice("adiabatic", 4);
    let Some(r) = report(points(), options(Approach::Constant, adiabatic)) else { return };
    let v = &r.r.values;
    let (rc, re) = (sym::real("ws.R_c", 1e-3, 1e3), sym::real("ws.R_e", 1e-3, 1e3));
    // heat through the thermal resistances of the working spaces
    let q_c = if adiabatic & 1 != 0 { 0. } else { work(&r, |i| (v.T_c[i] - r.t.chx) / rc) };
    let q_e = if adiabatic & 2 != 0 { 0. } else { work(&r, |i| (r.t.hhx - v.T_e[i]) / re) };
    let q_k = work(&r, |i| v.Q_dot_k[i]);
    let q_l = work(&r, |i| v.Q_dot_l[i]);
    let external = sym::real("hhx.thermal", 0., 1e4) + sym::real("regen.thermal", 0., 1e4) + sym::real("ws.exp.thermal", 0., 1e4);
    let friction = sym::real("ws.comp.mechanical", 0., 1e4) + sym::real("ws.exp.mechanical", 0., 1e4);
    let h = &r.r.heat_flow;
    let p = &r.r.power;
    let scale = 1e8;
    sym::eq_scaled("heat input", 0, h.input, q_l + q_e + external, scale);
    sym::eq_scaled("heat rejection", 0, h.rejection, q_c + q_k + external + friction + p.ideal_indicated - p.indicated, scale);
    sym::assume(h.input > 0.);
    sym::eq_scaled("efficiency", 0, r.r.efficiency.mechanical * h.input, p.net, scale);
    sym::eq_scaled("cold exchanger", 0, h.chx, q_k + q_c, scale);
    sym::eq_scaled("hot exchanger", 0, h.hhx, q_l + q_e, scale);
    // The gas balances of the five volumes (C08) over a cyclic steady state: the heat that goes into the
    // gas is the work it does and the heat it gives off
    let lost = sym::real("ws.comp.thermal", 0., 1e4) + sym::real("ws.exp.thermal", 0., 1e4);
    let stored = q_l + q_e - q_k - q_c - lost - p.ideal_indicated;
    let gap = h.input - h.rejection - p.shaft;
    sym::eq_known("first law", 0, gap, stored, stored + lost, scale, "F4b-working-space-losses");
    sym::cover("heat");
}

#[no_mangle]
pub fn c17_series() {
    let n = points();
    let Some(e) = engine(n, options(Approach::Constant, sym::choice("adiabatic", 4)), 1, -1.) else { return };
    let n = n as usize;
    let c = verif::calls().last().unwrap();
    sym::check("integrated points", c.x_out.len() == n);
    if c.x_out.len() != n {
        return;
    }
    let v = &e.values;
    let flows = |v: &sett_rs::api::Values, i: usize| {
        [v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i], v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]]
    };
    let solved = |i: usize, j: usize| sym::la_x(c.la_out[i] - 1, j);
    let mut entry = [10; 7];
    for i in 0..n {
        sym::eq_i("time", i, v.time[i], c.x_out[i]);
        sym::eq_i("pressure", i, v.P[i], c.y_out[i][0]);
        sym::eq_i("compression space temperature", i, v.T_c[i], c.y_out[i][1]);
        sym::eq_i("expansion space temperature", i, v.T_e[i], c.y_out[i][2]);
        let f = [v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i], v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]];
        for k in 0..7 {
            if i == 0 {
                for j in 0..10 {
                    if sym::same(solved(0, j), f[k]) {
                        entry[k] = j;
                    }
                }
                sym::check_i("solution at time zero", k, entry[k] < 10);
            }
            if entry[k] < 10 {
                sym::eq_i("flow", 10 * i + k, f[k], solved(i, entry[k]));
            }
        }
    }
    let s = &e.state;
    let state = [
        s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero, s.temp.sink, s.temp.chx, s.temp.regen.cold, s.temp.regen.avg, s.temp.regen.hot,
        s.temp.hhx, s.temp.source, s.mass_flow.chx, s.mass_flow.regen, s.mass_flow.hhx, s.heat_flow.chx, s.heat_flow.regen,
        s.heat_flow.hhx, s.regen_imbalance.0,
    ];
    let series: Vec<[f64; 11]> = (0..n)
        .map(|i| {
            [v.time[i], v.P[i], v.T_c[i], v.T_e[i], v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i], v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]]
        })
        .collect();
    let r = RunResults::from(e);
    let told = [
        r.pressure.avg, r.pressure.max, r.pressure.min, r.pressure.t_zero, r.temperature.sink, r.temperature.chx, r.temperature.regen_cold,
        r.temperature.regen_avg, r.temperature.regen_hot, r.temperature.hhx, r.temperature.source, r.mass_flow.chx, r.mass_flow.regen,
        r.mass_flow.hhx, r.heat_flow.chx, r.heat_flow.regen, r.heat_flow.hhx, r.regen_imbalance,
    ];
    for (i, (a, b)) in told.iter().zip(&state).enumerate() {
        sym::eq_scaled("repeated", i, *a, *b, 0.);
    }
    let v = &r.values;
    let ok = [&v.time, &v.P, &v.P_c, &v.P_e, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l]
        .iter()
        .all(|s| s.len() == n);
    sym::check("lengths of the results", ok);
    if ok {
        for i in 0..n {
            let f = flows(v, i);
            let told = [v.time[i], v.P[i], v.T_c[i], v.T_e[i], f[0], f[1], f[2], f[3], f[4], f[5], f[6]];
            for (k, (a, b)) in told.iter().zip(&series[i]).enumerate() {
                sym::eq_i("repeated series", 11 * i + k, *a, *b);
            }
        }
    }
    sym::cover("series");
}

/// The operating states the exchangers are asked with
#[no_mangle]
pub fn c19_questions() {
    let adiabatic = sym::choice("adiabatic", 4);
    let outer = 1 + sym::choice("outer", 2) as usize;
    let n = if outer == 1 { points() } else { 2 };
    let Some(e) = engine(n, options(Approach::State, adiabatic), outer, 0.01) else {
        sym::cover("not settled");
        return;
    };
    let (s, v) = (&e.state, &e.values);
    let t = &v.time;
    let p = mean(t, |i| v.P[i]);
    let through = |a: &[f64], b: &[f64]| mean(t, |i| (a[i] + b[i]) / 2.);
    let res = e.components.ws.thermal_resistance(&s.ws());
    let (k, l) = (s.temp.chx, s.temp.hhx);
    let state = |temp: f64, m: f64, q: f64, a: f64, b: f64| [temp, p, F.dens(temp, p), F.cp(temp, p), m, q, a, b];
    let i = world::inputs();
    let want = [
        state(k, through(&v.m_dot_ck, &v.m_dot_kr), mean(t, |i| v.Q_dot_k[i] + if adiabatic & 1 != 0 { 0. } else { (v.T_c[i] - k) / res.comp }), i.temp_sink, 0.),
        state(s.temp.regen.avg, through(&v.m_dot_kr, &v.m_dot_rl), mean(t, |i| v.Q_dot_r[i]), k, l),
        state(l, through(&v.m_dot_rl, &v.m_dot_le), mean(t, |i| v.Q_dot_l[i] + if adiabatic & 2 != 0 { 0. } else { (l - v.T_e[i]) / res.exp }), i.temp_source, 0.),
    ];
    let calls = verif::calls();
    // the pressures of the cycle after each iteration; before the first, the initial pressure
    let mut pres = vec![[i.pres_zero; 4]];
    for o in 0..calls.len() / 2 {
        let c = &calls[2 * o + 1];
        let p = |i: usize| c.y_out[i][0];
        let all = 0..c.y_out.len();
        pres.push([mean(&c.x_out, p), all.clone().fold(p(0), |a, i| a.max(p(i))), all.fold(p(0), |a, i| a.min(p(i))), p(0)]);
    }
    let last = calls.len() / 2;
    sym::check("iterations", calls.len() == 2 * last && last >= 1 && last <= outer);
    // the cycles of every iteration take one period at the pressures known by then
    for (j, c) in calls.iter().enumerate() {
        let period = 1. / world::ws_frequency(2 * (j / 2));
        sym::eq_scaled("period", j, c.x_end, period * (1. + 1e-9), period * 1e3);
    }
    #[allow(static_mut_refs)]
    let take = || unsafe { (std::mem::take(&mut world::ASKED), std::mem::take(&mut world::WS_ASKED)) };
    let hot = |name: &'static str, asked: &[(usize, usize, [f64; 8])]| {
        let mut seen = [false; 3];
        for (k, cycles, a) in asked {
            if *cycles == calls.len() {
                seen[*k] = true;
                for i in 0..8 {
                    sym::eq_scaled(name, 8 * k + i, a[i], want[*k][i], if i == 5 { 1e5 } else { 0. });
                }
            } else {
                // an earlier iteration, which started from the initial approaches
                let a0 = world::initial_approaches();
                let (k0, l0) = (i.temp_sink + a0[0], i.temp_source - a0[2]);
                let p = pres[cycles / 2][0];
                let (c, h) = (k0 + a0[1] / 2., l0 - a0[1] / 2.);
                let temp = [k0, (h - c) / (h / c).ln(), l0][*k];
                let outside = [[i.temp_sink, 0.], [k0, l0], [i.temp_source, 0.]][*k];
                sym::check_i("earlier iteration", *k, *cycles == 2);
                for (j, w) in [temp, p, F.dens(temp, p), F.cp(temp, p)].iter().enumerate() {
                    sym::eq_i("earlier", 8 * k + j, a[j], *w);
                }
                sym::eq_i("earlier", 8 * k + 6, a[6], outside[0]);
                sym::eq_i("earlier", 8 * k + 7, a[7], outside[1]);
            }
        }
        for k in 0..3 {
            sym::check_i("asked", k, seen[k]);
        }
    };
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b;
    let spaces = |reported: bool, asked: &[(usize, usize, [f64; 4])]| {
        for (k, cycles, a) in asked {
            let o = *cycles / 2;
            for j in 0..4 {
                if *k == world::RESISTANCE && !reported && o > 0 {
                    // an iteration may use the resistances it started with
                    sym::check_i("resistance", j, near(a[j], pres[o][j]) || near(a[j], pres[o - 1][j]));
                } else {
                    sym::eq_i("working spaces", 4 * k + j, a[j], pres[o][j]);
                }
            }
        }
    };
    let (asked, ws_asked) = take();
    hot("approach", &asked);
    spaces(false, &ws_asked);
    let r = RunResults::from(e);
    let (asked, ws_asked) = take();
    hot("results", &asked);
    spaces(true, &ws_asked);
    let loss = world::ws_losses(2 * last);
    sym::eq_scaled("shaft", 0, r.power.shaft, r.power.indicated - loss[0] - loss[1], 1e8);
    sym::eq_scaled("torque", 0, r.shaft_torque, r.power.shaft / (2. * PI * world::ws_frequency(2 * last)), 1e8);
    let (a, b) = (world::losses(0, 2 * last), world::losses(2, 2 * last));
    sym::eq_scaled("net", 0, r.power.net, r.power.shaft - a.mechanical - b.mechanical, 1e8);
    if last == 1 {
        sym::cover("asked");
    } else {
        sym::cover("asked again");
    }
}
