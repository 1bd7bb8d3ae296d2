//! C04, C05: the drive mechanisms
use std::f64::consts::PI;
use crate::de::{m, one, V};
use crate::sym;
use serde::Deserialize;
use sett_rs::types::ParasiticPower;
use sett_rs::ws::{
    self, sinusoidal_drive::Geometry, CompVolume, RhombicDrive, ExpVolume, Parasitics, SinusoidalDrive, State, ThermalResistance, WorkingSpaces,
};

/// The drives do not look at the engine state
pub fn ws_state() -> State {
    unsafe { core::mem::zeroed() }
}

struct Sin {
    f: f64,
    phase: f64,
    vcl_c: f64,
    vsw_c: f64,
    vcl_e: f64,
    vsw_e: f64,
}
fn sin_params() -> Sin {
    Sin {
        f: sym::real("frequency", 1e-2, 1e4),
        phase: sym::real("phase_angle", -720., 720.),
        vcl_c: sym::real("V_clearance_c", 0., 10.),
        vsw_c: sym::real("V_swept_c", 1e-9, 10.),
        vcl_e: sym::real("V_clearance_e", 0., 10.),
        vsw_e: sym::real("V_swept_e", 1e-9, 10.),
    }
}
fn sin_drive(p: &Sin) -> SinusoidalDrive {
    SinusoidalDrive {
        frequency: p.f,
        phase_angle: p.phase,
        comp_geometry: Geometry { clearance_volume: p.vcl_c, swept_volume: p.vsw_c },
        exp_geometry: Geometry { clearance_volume: p.vcl_e, swept_volume: p.vsw_e },
        thermal_resistance: ThermalResistance::default(),
        parasitics: Parasitics { comp: ParasiticPower::default(), exp: ParasiticPower::default() },
    }
}

type VolFn = Box<dyn Fn(f64) -> (CompVolume, ExpVolume)>;

/// Any moment of an early or later cycle
pub fn moment(f: f64) -> (f64, f64) {
    let cycle = [0., 1., 12.][sym::choice("cycle", 3) as usize];
    (cycle, (cycle + sym::real("u", 0., 1.)) / f)
}
fn derivs(v: &VolFn, f: f64) {
    let (cycle, t) = moment(f);
    let u = sym::real("u", 0., 1.);
    let (c, e) = v(t);
    sym::obs("V_c", 0, c.value);
    sym::obs("V_e", 0, e.value);
    sym::obs("dV_c", 0, c.deriv);
    sym::obs("dV_e", 0, e.deriv);
    let dc = f * sym::deriv(&|x| v((cycle + x) / f).0.value, u, 1e-3);
    let de = f * sym::deriv(&|x| v((cycle + x) / f).1.value, u, 1e-3);
    sym::eq_scaled("dVc_dt", 0, c.deriv, dc, c.value * f);
    sym::eq_scaled("dVe_dt", 0, e.deriv, de, e.value * f);
    sym::cover("derivative");
}

fn periodic(v: &VolFn, f: f64) {
    let t = moment(f).1;
    let (c, e) = v(t);
    let (c2, e2) = v(t + 1. / f);
    sym::obs("V_c", 0, c.value);
    sym::obs("V_e", 0, e.value);
    sym::eq("V_c repeats", c2.value, c.value);
    sym::eq("V_e repeats", e2.value, e.value);
}

#[no_mangle]
pub fn c04_sinusoidal() {
    let p = sin_params();
    let d = sin_drive(&p);
    derivs(&d.volumes(&ws_state()), p.f);
}

#[no_mangle]
pub fn c05_sinusoidal() {
    let p = sin_params();
    let v = sin_drive(&p).volumes(&ws_state());
    periodic(&v, p.f);
    let t = moment(p.f).1;
    let (c, e) = v(t);
    sym::le("V_c low", p.vcl_c, c.value, 0.);
    sym::le("V_e low", p.vcl_e, e.value, 0.);
    sym::le("V_c high", c.value, p.vcl_c + p.vsw_c, 0.);
    sym::le("V_e high", e.value, p.vcl_e + p.vsw_e, 0.);
    // the compression volume is largest at time zero and smallest half a period later
    sym::eq("V_c at zero", v(0.).0.value, p.vcl_c + p.vsw_c);
    sym::eq_scaled("V_c at half", 0, v(0.5 / p.f).0.value, p.vcl_c, p.vsw_c);
    // the expansion volume is where the compression volume will be one phase angle later
    let lead = p.phase / 360. / p.f;
    let shape_c = (v(t + lead).0.value - p.vcl_c) / p.vsw_c;
    let shape_e = (e.value - p.vcl_e) / p.vsw_e;
    sym::eq_scaled("phase", 0, shape_e, shape_c, 1.0 + (p.vcl_c / p.vsw_c) + (p.vcl_e / p.vsw_e));
    sym::eq("V_e extreme high", v(1. / p.f - lead).1.value, p.vcl_e + p.vsw_e);
    sym::eq_scaled("V_e extreme low", 0, v(0.5 / p.f - lead).1.value, p.vcl_e, p.vsw_e);
    sym::cover("sinusoidal");
}

struct Rho {
    f: f64,
    vcl_c: f64,
    vcl_e: f64,
    r: f64,
    l: f64,
    e: f64,
    dp: f64,
    dd: f64,
}
/// Admissible geometry: the crank passes both dead centres (r + e <= L), and the rods do not cross (r <= e)
fn rho_params() -> Rho {
    let p = Rho {
        f: sym::real("frequency", 1e-2, 1e4),
        vcl_c: sym::real("V_clearance_c", 0., 10.),
        vcl_e: sym::real("V_clearance_e", 0., 10.),
        r: sym::real("r_crank", 1e-4, 0.05),
        l: sym::real("L_conn", 0.26, 3.),
        e: sym::real("eccentricity", 0.05, 0.2),
        dp: sym::real("D_p", 1e-3, 3.),
        dd: sym::real("D_d", 1e-3, 3.),
    };
    p
}
fn rho_drive(p: &Rho) -> RhombicDrive {
    let v = |x: f64| V::F(x);
    let c = ws::Config::deserialize(one(
        "rhombic",
        m(vec![
            ("frequency", v(p.f)),
            ("V_clearance_c", v(p.vcl_c)),
            ("R_c", v(f64::INFINITY)),
            ("W_parasitic_c", v(0.)),
            ("V_clearance_e", v(p.vcl_e)),
            ("R_e", v(f64::INFINITY)),
            ("W_parasitic_e", v(0.)),
            ("Q_parasitic_e", v(0.)),
            ("r_crank", v(p.r)),
            ("L_conn", v(p.l)),
            ("eccentricity", v(p.e)),
            ("D_p", v(p.dp)),
            ("D_d", v(p.dd)),
        ]),
    ));
    match c {
        Ok(ws::Config::Rhombic(c)) => c.into(),
        _ => panic!(),
    }
}

#[no_mangle]
pub fn c04_rhombic() {
    let p = rho_params();
    derivs(&rho_drive(&p).volumes(&ws_state()), p.f);
}

#[no_mangle]
pub fn c05_rhombic() {
    let p = rho_params();
    let v = rho_drive(&p).volumes(&ws_state());
    periodic(&v, p.f);
    let t = moment(p.f).1;
    let (vc, ve) = v(t);
    let theta = 2. * PI * p.f * t;
    let (s, c) = (theta.sin(), theta.cos());
    // half the distance between the yokes' pins is e + r cos(theta); the rods span the rest
    let along = |x: f64| (p.l * p.l - x * x).sqrt();
    let b = along(p.e + p.r * c);
    let bot = along(p.e - p.r);
    let near = ((p.l - p.r) * (p.l - p.r) - p.e * p.e).sqrt();
    let (ap, ad) = (PI / 4. * p.dp * p.dp, PI / 4. * p.dd * p.dd);
    let (sc, se) = (p.vcl_c + ap * p.l, p.vcl_e + ad * p.l);
    sym::eq_scaled("V_c", 0, vc.value, p.vcl_c + 2. * ap * (bot - b), sc);
    sym::eq_scaled("V_e", 0, ve.value, p.vcl_e + ad * (b - near - p.r * s), se);
    // both reach their clearance volume
    sym::eq_scaled("V_c reaches clearance", 0, v(0.5 / p.f).0.value, p.vcl_c, sc);
    // and never go below it
    sym::le("pin distance", p.e - p.r, p.e + p.r * c, 0.);
    sym::le("rods", b, bot, 0.);
    sym::le("V_c low", p.vcl_c, vc.value, 0.);
    // (c, s) is a unit vector and (e, near) has the length L - r
    let dot = p.e * c + near * s;
    let cross = p.e * s - near * c;
    sym::eq("projection", dot * dot + cross * cross, (p.l - p.r) * (p.l - p.r));
    sym::lemma(dot * dot + cross * cross == (p.l - p.r) * (p.l - p.r));
    sym::le("reach", dot, p.l - p.r, 0.);
    sym::lemma(dot <= p.l - p.r);
    let x = near + p.r * s;
    sym::eq_scaled("slack", 0, b * b - x * x, 2. * p.r * (p.l - p.r - dot), p.l * p.l);
    let (bf, xf) = (sym::fresh("b", b), sym::fresh("x", x));
    sym::lemma(bf * bf - xf * xf >= 0.0);
    sym::le("V_e low", p.vcl_e, p.vcl_e + ad * (bf - xf), se);
    sym::cover("rhombic");
}
