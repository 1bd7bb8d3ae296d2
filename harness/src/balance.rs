//! C07, C08: mass and energy balances of the five control volumes at the points of a cycle
use crate::{runs, sym, world};
use ode_solvers::verif;
use sett_rs::fluid::Fluid;
use sett_rs::types::{ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, RunSettings};
use sett_rs::ws::ThermalResistance;
use sett_rs::{Engine, LuSolver};
use world::AnyFluid;

const F: AnyFluid = AnyFluid;

/// One reported point and the rates integrated from it
struct Point {
    time: f64,
    p: f64,
    t_c: f64,
    t_e: f64,
    ck: f64,
    kr: f64,
    rl: f64,
    le: f64,
    q_k: f64,
    q_r: f64,
    q_l: f64,
    dp: f64,
    dtc: f64,
    dte: f64,
}
/// A run over arbitrary conditions: the point with index `points - 1`
fn point(points: usize, adiabatic: u32, resolution: u32) -> Option<(Engine<AnyFluid>, Point)> {
    let o = world::Opt { approach: world::Approach::Constant, adiabatic, no_drop: true };
    runs::ode(false, false, true);
    sym::la(sym::La::Contract);
    sym::la_limit(sym::param("systems") as usize);
    // every cycle counts as settled
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let set = RunSettings {
        resolution,
        loop_tol: LoopTolerance { inner: any, outer: any },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    sym::allow_panic(true);
    let result = Engine::run::<LuSolver>(world::components(o), AnyFluid, world::inputs(), set);
    sym::allow_panic(false);
    sym::check("run", result.is_ok());
    let Ok(e) = result else { return None };
    let c = verif::calls().last()?;
    let i = points - 1;
    let v = &e.values;
    sym::check("points", v.time.len() == resolution as usize && c.dy_out.len() == v.time.len());
    if v.time.len() != resolution as usize || c.dy_out.len() != v.time.len() {
        return None;
    }
    let (y, d) = (c.y_out[i], c.dy_out[i]);
    let p = Point {
        time: c.x_out[i],
        p: y[0],
        t_c: y[1],
        t_e: y[2],
        ck: v.m_dot_ck[i],
        kr: v.m_dot_kr[i],
        rl: v.m_dot_rl[i],
        le: v.m_dot_le[i],
        q_k: v.Q_dot_k[i],
        q_r: v.Q_dot_r[i],
        q_l: v.Q_dot_l[i],
        dp: d[0],
        dtc: d[1],
        dte: d[2],
    };
    Some((e, p))
}
/// The volumes
struct Volumes {
    c: (f64, f64),
    k: f64,
    r: f64,
    l: f64,
    e: (f64, f64),
}
fn volumes(e: &Engine<AnyFluid>, p: &Point) -> Volumes {
    let o = world::Opt { approach: world::Approach::Constant, adiabatic: 3, no_drop: true };
    let (c, x) = world::AnyWs(o).at(p.time);
    Volumes { c: (c.value, c.deriv), k: e.components.chx.volume(), r: e.components.regen.volume(), l: e.components.hhx.volume(), e: (x.value, x.deriv) }
}
/// Sum of terms that must vanish; the size is for rounding in native runs
fn zero(name: &'static str, terms: &[f64]) {
    let (mut s, mut n) = (0., 0.);
    for t in terms {
        s += t;
        n += t.abs();
    }
    sym::eq_scaled(name, 0, s, 0., if sym::native() { n } else { 1. });
}

#[no_mangle]
pub fn c07_mass() {
    let i = 1 + sym::choice("point", sym::param("points")) as usize;
    let Some((e, p)) = point(i, 0, 2) else { return };
    let v = volumes(&e, &p);
    let t = e.state.temp;
    // d(dens V)/dt
    let hx = |vol: f64, temp: f64| vol * F.dd_dP_T(temp, p.p) * p.dp;
    let ws = |vol: (f64, f64), temp: f64, dt: f64| {
        [F.dens(temp, p.p) * vol.1, vol.0 * F.dd_dT_P(temp, p.p) * dt, vol.0 * F.dd_dP_T(temp, p.p) * p.dp]
    };
    let c = ws(v.c, p.t_c, p.dtc);
    let x = ws(v.e, p.t_e, p.dte);
    let (k, r, l) = (hx(v.k, t.chx), hx(v.r, t.regen.avg), hx(v.l, t.hhx));
    zero("compression space", &[c[0], c[1], c[2], p.ck]);
    zero("cold exchanger", &[k, p.kr, -p.ck]);
    zero("regenerator", &[r, p.rl, -p.kr]);
    zero("hot exchanger", &[l, p.le, -p.rl]);
    zero("expansion space", &[x[0], x[1], x[2], -p.le]);
    zero("total", &[c[0], c[1], c[2], k, r, l, x[0], x[1], x[2]]);
    sym::cover("balance");
}

#[no_mangle]
pub fn c08_energy() {
    let i = 1 + sym::choice("point", sym::param("points")) as usize;
    let adiabatic = sym::choice("adiabatic", 4);
    energy(i, adiabatic, 2);
    if adiabatic == 3 {
        sym::cover("adiabatic");
    } else {
        sym::cover("heat flow");
    }
}

/// The balances hold with the enthalpies the computed flows carry, whatever directions were assumed
/// first: those of a previous point, or none
#[no_mangle]
pub fn c22_directions() {
    let n = sym::param("points");
    let i = 1 + sym::choice("point", n) as usize;
    if energy(i, 3, n) {
        sym::cover("verified");
        if i > 2 {
            sym::cover("later point");
        }
    }
}

fn energy(i: usize, adiabatic: u32, resolution: u32) -> bool {
    let Some((e, p)) = point(i, adiabatic, resolution) else { return false };
    let v = volumes(&e, &p);
    let t = e.state.temp;
    // d(dens inte V)/dt
    let dp = |temp: f64| (F.dens(temp, p.p) * F.du_dP_T(temp, p.p) + F.inte(temp, p.p) * F.dd_dP_T(temp, p.p)) * p.dp;
    let dt = |temp: f64, d: f64| (F.dens(temp, p.p) * F.du_dT_P(temp, p.p) + F.inte(temp, p.p) * F.dd_dT_P(temp, p.p)) * d;
    let ws = |vol: (f64, f64), temp: f64, d: f64| {
        [F.dens(temp, p.p) * F.inte(temp, p.p) * vol.1, vol.0 * dt(temp, d), vol.0 * dp(temp)]
    };
    // gas carries the enthalpy of the volume it leaves
    let carry = |m: f64, from: f64, to: f64| if m >= 0. { m * F.enth(from, p.p) } else { m * F.enth(to, p.p) };
    let ck = carry(p.ck, p.t_c, t.chx);
    let kr = carry(p.kr, t.chx, t.regen.cold);
    let rl = carry(p.rl, t.regen.hot, t.hhx);
    let le = carry(p.le, t.hhx, p.t_e);
    // heat lost by the gas in the working spaces
    let s = e.state.ws();
    let ThermalResistance { comp, exp } = e.components.ws.thermal_resistance(&s);
    let loss = e.components.ws.parasitics(&s);
    let q_c = if adiabatic & 1 != 0 { 0. } else { (p.t_c - t.chx) / comp };
    let q_e = if adiabatic & 2 != 0 { 0. } else { (p.t_e - t.hhx) / exp };
    let c = ws(v.c, p.t_c, p.dtc);
    let x = ws(v.e, p.t_e, p.dte);
    zero("compression space", &[c[0], c[1], c[2], ck, p.p * v.c.1, q_c, loss.comp.thermal]);
    zero("cold exchanger", &[v.k * dp(t.chx), kr, -ck, p.q_k]);
    zero("regenerator", &[v.r * dp(t.regen.avg), rl, -kr, p.q_r]);
    zero("hot exchanger", &[v.l * dp(t.hhx), le, -rl, -p.q_l]);
    zero("expansion space", &[x[0], x[1], x[2], -le, p.p * v.e.1, q_e, loss.exp.thermal]);
    true
}
