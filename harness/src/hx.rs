//! C16: fixed conductance heat exchangers
use crate::sym;
use sett_rs::chx::{self, ColdHeatExchanger};
use sett_rs::hhx::{self, HotHeatExchanger};
use sett_rs::regen::{self, Regenerator};
use sett_rs::types::{HeatExchanger, ParasiticPower};

fn gas() -> HeatExchanger {
    HeatExchanger {
        temp: sym::real("temp", 200., 2000.),
        pres: sym::real("pres", 1e4, 1e8),
        dens: sym::real("dens", 1e-2, 1e2),
        cp: sym::real("cp", 1e2, 5e4),
        m_dot: sym::real("m_dot", 1e-5, 10.),
        Q_dot: sym::real("Q_dot", 0., 1e6),
    }
}
/// `f` is the approach as a function of conductance and heat
fn constant_temperature(f: &dyn Fn(f64, f64) -> f64) {
    let g = gas();
    let c = g.cp * g.m_dot;
    let ua = sym::real("UA", 1e-2, 1e6);
    let ua2 = sym::real("UA2", 1e-2, 1e6);
    let a = f(ua, g.Q_dot);
    sym::obs("approach", 0, a);
    // the gas leaves `a` from the stream and enters Q/C further away; the ratio of both is exp(-UA/C)
    let e = f64::exp(-(ua / c));
    sym::eq_scaled("heat", 0, a * (1. - e) * c, g.Q_dot * e, g.Q_dot);
    sym::le("not negative", 0., a, 0.);
    sym::assume(ua2 >= ua);
    sym::le("shrinks", f(ua2, g.Q_dot), a, 1e-3 * a);
    // linear in the heat, for heat in the other direction too
    let q = sym::real("Q_any", -1e6, 1e6);
    sym::eq_scaled("any heat", 0, f(ua, q) * g.Q_dot, a * q, a * q);
    sym::cover("approach");
}

#[no_mangle]
pub fn c16_chx() {
    constant_temperature(&|ua, q| {
        let x = chx::FixedConductance::new(1e-4, 0., ua, ParasiticPower::default());
        x.approach(&chx::State { hxr: HeatExchanger { Q_dot: q, ..gas() }, sink_temp: sym::real("sink", 200., 400.) })
    });
}

#[no_mangle]
pub fn c16_hhx() {
    constant_temperature(&|ua, q| {
        let x = hhx::FixedConductance::new(1e-4, 0., ua, ParasiticPower::default());
        x.approach(&hhx::State { hxr: HeatExchanger { Q_dot: q, ..gas() }, source_temp: sym::real("source", 400., 2000.) })
    });
}

#[no_mangle]
pub fn c16_regen() {
    let g = gas();
    let c = g.cp * g.m_dot;
    let (tk, tl) = (sym::real("T_k", 200., 500.), sym::real("T_l", 500., 2000.));
    let f = |ua: f64| {
        let x = regen::FixedConductance::new(1e-4, 0., ua, ParasiticPower::default());
        x.approach(&regen::State { hxr: gas(), temp_chx: tk, temp_hhx: tl })
    };
    let ua = sym::real("UA", 1e-2, 1e8);
    let ua2 = sym::real("UA2", 1e-2, 1e8);
    let a = f(ua);
    sym::obs("approach", 0, a);
    // a balanced counterflow exchanger between the two blows, each in contact with half of the matrix:
    // the temperature difference `a` is constant along it and moves C (span - a) across UA/2
    sym::eq_scaled("heat", 0, ua / 2. * a, c * (tl - tk - a), c * (tl - tk));
    sym::le("not negative", 0., a, 0.);
    sym::le("within the span", a, tl - tk, 0.);
    sym::assume(ua2 >= ua);
    sym::le("shrinks", f(ua2), a, 0.);
    sym::cover("approach");
}
