//! Arbitrary fluids and components: every answer is an unknown constant or an unknown function of what
//! the engine passes in.
use crate::sym;
use sett_rs::chx::{self, ColdHeatExchanger};
use sett_rs::fluid::Fluid;
use sett_rs::hhx::{self, HotHeatExchanger};
use sett_rs::regen::{self, Regenerator};
use sett_rs::types::{
    ConvergenceTolerance, HeatExchanger, LoopTolerance, MaxIters, OdeTolerance, ParasiticPower, RunInputs, RunSettings,
};
use sett_rs::ws::{self, CompVolume, ExpVolume, Parasitics, ThermalResistance, WorkingSpaces};
use sett_rs::Components;

/// Thermodynamic properties are unknown functions of temperature and pressure
pub struct AnyFluid;
impl Fluid for AnyFluid {
    fn dens(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("dens", &[temp, pres], 0.1, 100.)
    }
    fn inte(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("inte", &[temp, pres], 1e5, 5e6)
    }
    fn enth(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("enth", &[temp, pres], 1e5, 5e6)
    }
    fn cp(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("cp", &[temp, pres], 1e3, 2e4)
    }
    fn dd_dP_T(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("dd_dP_T", &[temp, pres], 1e-7, 1e-5)
    }
    fn dd_dT_P(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("dd_dT_P", &[temp, pres], -0.2, -1e-4)
    }
    fn du_dP_T(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("du_dP_T", &[temp, pres], -0.01, 0.01)
    }
    fn du_dT_P(&self, temp: f64, pres: f64) -> f64 {
        sym::uf("du_dT_P", &[temp, pres], 1e3, 2e4)
    }
}

/// Where approaches come from
#[derive(Clone, Copy, PartialEq)]
pub enum Approach {
    /// constants
    Constant,
    /// arbitrary values for every cycle integrated; the questions are recorded
    State,
    /// arbitrary values for every cycle integrated
    Cycle,
}
/// How the components answer
#[derive(Clone, Copy)]
pub struct Opt {
    pub approach: Approach,
    /// which working spaces are adiabatic (infinite thermal resistance): 1 compression, 2 expansion space
    pub adiabatic: u32,
    /// hydraulic resistances are zero
    pub no_drop: bool,
}

/// The approaches stay the same after this number of integrations
pub static mut HOLD: usize = usize::MAX;
/// The approach of exchanger `k` (chx, regen, hhx) after a number of integrations
pub fn cycle_approach(k: usize, cycles: usize) -> f64 {
    let cycles = cycles.min(unsafe { HOLD });
    if cycles == 0 {
        return initial_approaches()[k];
    }
    sym::real_i(["chx.approach", "regen.approach", "hhx.approach"][k], cycles, 0.1, 90.)
}
pub fn initial_approaches() -> [f64; 3] {
    [sym::real("chx.initial", 0.1, 90.), sym::real("regen.initial", 0.1, 90.), sym::real("hhx.initial", 0.1, 90.)]
}
pub fn frequency() -> f64 {
    sym::real("frequency", 1e-2, 1e4)
}
/// Everything the exchangers were asked: which (chx, regen, hhx), after how many integrations, with what
pub static mut ASKED: Vec<(usize, usize, [f64; 8])> = Vec::new();
fn ask(k: usize, h: &HeatExchanger, a: f64, b: f64) {
    let v = [h.temp, h.pres, h.dens, h.cp, h.m_dot, h.Q_dot, a, b];
    let cycles = now();
    #[allow(static_mut_refs)]
    unsafe {
        ASKED.push((k, cycles, v))
    };
}
/// Questions to the working spaces
pub const FREQUENCY: usize = 0;
pub const VOLUMES: usize = 1;
pub const RESISTANCE: usize = 2;
pub const PARASITICS: usize = 3;
/// Everything the working spaces were asked
pub static mut WS_ASKED: Vec<(usize, usize, [f64; 4])> = Vec::new();
fn ask_ws(k: usize, s: &ws::State) {
    let v = [s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero];
    let cycles = now();
    #[allow(static_mut_refs)]
    unsafe {
        WS_ASKED.push((k, cycles, v))
    };
}
/// Frequency and mechanical losses of the working spaces after a number of integrations
pub fn ws_frequency(cycles: usize) -> f64 {
    sym::real_i("ws.frequency", cycles, 1e-2, 1e4)
}
pub fn ws_losses(cycles: usize) -> [f64; 2] {
    [sym::real_i("ws.comp.mechanical", cycles, 0., 1e4), sym::real_i("ws.exp.mechanical", cycles, 0., 1e4)]
}
fn now() -> usize {
    ode_solvers::verif::calls().len()
}
fn parasitic(name_t: &'static str, name_m: &'static str, name_e: &'static str) -> ParasiticPower {
    ParasiticPower {
        thermal: sym::real(name_t, 0., 1e4),
        mechanical: sym::real(name_m, 0., 1e4),
        electrical: sym::real(name_e, 0., 1e4),
    }
}

/// Hydraulic resistance after a number of integrations
pub fn hydraulic(k: usize, cycles: usize) -> f64 {
    sym::real_i(["chx.R_hyd", "regen.R_hyd", "hhx.R_hyd"][k], cycles, 0., 1e8)
}
/// Losses after a number of integrations
pub fn losses(k: usize, cycles: usize) -> ParasiticPower {
    ParasiticPower {
        thermal: sym::real_i(["chx.thermal", "regen.thermal", "hhx.thermal"][k], cycles, 0., 1e4),
        mechanical: sym::real_i(["chx.mechanical", "regen.mechanical", "hhx.mechanical"][k], cycles, 0., 1e4),
        electrical: sym::real_i(["chx.electrical", "regen.electrical", "hhx.electrical"][k], cycles, 0., 1e4),
    }
}

pub struct AnyChx(pub Opt);
impl ColdHeatExchanger for AnyChx {
    fn volume(&self) -> f64 {
        sym::real("chx.volume", 1e-8, 1e-1)
    }
    fn approach(&self, s: &chx::State) -> f64 {
        match self.0.approach {
            Approach::Constant => return self.initial_approach(),
            Approach::Cycle => return cycle_approach(0, ode_solvers::verif::calls().len()),
            Approach::State => {}
        }
        ask(0, &s.hxr, s.sink_temp, 0.);
        cycle_approach(0, now())
    }
    fn hydraulic_resistance(&self, s: &chx::State) -> f64 {
        if self.0.no_drop {
            return 0.;
        }
        if self.0.approach == Approach::State {
            ask(0, &s.hxr, s.sink_temp, 0.);
            return hydraulic(0, now());
        }
        sym::real("chx.R_hyd", 0., 1e8)
    }
    fn parasitics(&self, s: &chx::State) -> ParasiticPower {
        if self.0.approach == Approach::State {
            ask(0, &s.hxr, s.sink_temp, 0.);
            return losses(0, now());
        }
        parasitic("chx.thermal", "chx.mechanical", "chx.electrical")
    }
    fn initial_approach(&self) -> f64 {
        sym::real("chx.initial", 0.1, 90.)
    }
}
pub struct AnyHhx(pub Opt);
impl HotHeatExchanger for AnyHhx {
    fn volume(&self) -> f64 {
        sym::real("hhx.volume", 1e-8, 1e-1)
    }
    fn approach(&self, s: &hhx::State) -> f64 {
        match self.0.approach {
            Approach::Constant => return self.initial_approach(),
            Approach::Cycle => return cycle_approach(2, ode_solvers::verif::calls().len()),
            Approach::State => {}
        }
        ask(2, &s.hxr, s.source_temp, 0.);
        cycle_approach(2, now())
    }
    fn hydraulic_resistance(&self, s: &hhx::State) -> f64 {
        if self.0.no_drop {
            return 0.;
        }
        if self.0.approach == Approach::State {
            ask(2, &s.hxr, s.source_temp, 0.);
            return hydraulic(2, now());
        }
        sym::real("hhx.R_hyd", 0., 1e8)
    }
    fn parasitics(&self, s: &hhx::State) -> ParasiticPower {
        if self.0.approach == Approach::State {
            ask(2, &s.hxr, s.source_temp, 0.);
            return losses(2, now());
        }
        parasitic("hhx.thermal", "hhx.mechanical", "hhx.electrical")
    }
    fn initial_approach(&self) -> f64 {
        sym::real("hhx.initial", 0.1, 90.)
    }
}
pub struct AnyRegen(pub Opt);
impl Regenerator for AnyRegen {
    fn volume(&self) -> f64 {
        sym::real("regen.volume", 1e-8, 1e-1)
    }
    fn approach(&self, s: &regen::State) -> f64 {
        match self.0.approach {
            Approach::Constant => return self.initial_approach(),
            Approach::Cycle => return cycle_approach(1, ode_solvers::verif::calls().len()),
            Approach::State => {}
        }
        ask(1, &s.hxr, s.temp_chx, s.temp_hhx);
        cycle_approach(1, now())
    }
    fn hydraulic_resistance(&self, s: &regen::State) -> f64 {
        if self.0.no_drop {
            return 0.;
        }
        if self.0.approach == Approach::State {
            ask(1, &s.hxr, s.temp_chx, s.temp_hhx);
            return hydraulic(1, now());
        }
        sym::real("regen.R_hyd", 0., 1e8)
    }
    fn parasitics(&self, s: &regen::State) -> ParasiticPower {
        if self.0.approach == Approach::State {
            ask(1, &s.hxr, s.temp_chx, s.temp_hhx);
            return losses(1, now());
        }
        parasitic("regen.thermal", "regen.mechanical", "regen.electrical")
    }
    fn initial_approach(&self) -> f64 {
        sym::real("regen.initial", 0.1, 90.)
    }
}
pub struct AnyWs(pub Opt);
impl AnyWs {
    pub fn at(&self, t: f64) -> (CompVolume, ExpVolume) {
        (
            CompVolume { value: sym::uf("V_c", &[t], 1e-8, 1e-1), deriv: sym::uf("dV_c", &[t], -1., 1.) },
            ExpVolume { value: sym::uf("V_e", &[t], 1e-8, 1e-1), deriv: sym::uf("dV_e", &[t], -1., 1.) },
        )
    }
}
impl WorkingSpaces for AnyWs {
    fn frequency(&self, s: &ws::State) -> f64 {
        if self.0.approach == Approach::State {
            ask_ws(FREQUENCY, s);
            return ws_frequency(now());
        }
        frequency()
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        if self.0.approach == Approach::State {
            ask_ws(VOLUMES, s);
        }
        let w = AnyWs(self.0);
        Box::new(move |t| w.at(t))
    }
    fn thermal_resistance(&self, s: &ws::State) -> ThermalResistance {
        if self.0.approach == Approach::State {
            ask_ws(RESISTANCE, s);
        }
        let r = |bit, name| if self.0.adiabatic & bit != 0 { f64::INFINITY } else { sym::real(name, 1e-3, 1e3) };
        ThermalResistance { comp: r(1, "ws.R_c"), exp: r(2, "ws.R_e") }
    }
    fn parasitics(&self, s: &ws::State) -> Parasitics {
        let mut p = Parasitics {
            comp: parasitic("ws.comp.thermal", "ws.comp.mechanical", "ws.comp.electrical"),
            exp: parasitic("ws.exp.thermal", "ws.exp.mechanical", "ws.exp.electrical"),
        };
        if self.0.approach == Approach::State {
            ask_ws(PARASITICS, s);
            [p.comp.mechanical, p.exp.mechanical] = ws_losses(now());
        }
        p
    }
}

pub fn components(o: Opt) -> Components {
    Components {
        ws: Box::new(AnyWs(o)),
        chx: Box::new(AnyChx(o)),
        regen: Box::new(AnyRegen(o)),
        hhx: Box::new(AnyHhx(o)),
    }
}
pub fn inputs() -> RunInputs {
    RunInputs {
        pres_zero: sym::real("pres_zero", 1e4, 1e9),
        temp_sink: sym::real("temp_sink", 50., 500.),
        temp_source: sym::real("temp_source", unsafe { SOURCE_MIN }, 3000.),
    }
}
/// The usual sources leave a span over the regenerator whatever the approaches are
pub static mut SOURCE_MIN: f64 = 900.;
pub fn settings(resolution: u32, inner: usize, outer: usize) -> RunSettings {
    RunSettings {
        resolution,
        loop_tol: LoopTolerance {
            inner: ConvergenceTolerance { abs: sym::real("inner.abs", 1e-6, 1e3), rel: sym::real("inner.rel", 1e-9, 1.) },
            outer: ConvergenceTolerance { abs: sym::real("outer.abs", 1e-6, 1e3), rel: sym::real("outer.rel", 1e-9, 1.) },
        },
        ode_tol: OdeTolerance { abs: sym::real("ode.abs", 1e-12, 1e-1), rel: sym::real("ode.rel", 1e-12, 1e-1) },
        max_iters: MaxIters { inner, outer },
    }
}
