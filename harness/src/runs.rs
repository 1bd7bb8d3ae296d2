//! C03, C10, C11: the two loops of a run, over arbitrary trajectories
use crate::{sym, world};
use crate::world::initial_approaches;
use crate::cfg::equal_results;
use ode_solvers::verif;
use sett_rs::api::RunResults;
use sett_rs::types::{ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, RunError, RunInputs, RunSettings};
use sett_rs::{Engine, LuSolver};

pub fn ode(may_fail: bool, may_nan: bool, eval: bool) {
    verif::reset(verif::Cfg {
        may_fail,
        may_nan,
        eval,
        rounding: false,
        max_points: 16,
        long_fails: false,
        fails_anew: false,
        lo: [1e5, 100., 100.],
        hi: [1e8, 3000., 3000.],
        repeat: None,
    });
}

/// The temperatures a run settles
#[derive(Clone, Copy)]
struct Temps {
    chx: f64,
    cold: f64,
    avg: f64,
    hot: f64,
    hhx: f64,
}
impl Temps {
    fn new(i: &RunInputs, chx: f64, regen: f64, hhx: f64) -> Self {
        let (k, l) = (i.temp_sink + chx, i.temp_source - hhx);
        let (a, b) = (k + 0.5 * regen, l - 0.5 * regen);
        Temps { chx: k, cold: k + regen, avg: (b - a) / (b / a).ln(), hot: l - regen, hhx: l }
    }
    fn settled(self, new: Self, t: ConvergenceTolerance) -> bool {
        settled(self.chx, new.chx, t)
            && settled(self.hhx, new.hhx, t)
            && settled(self.cold, new.cold, t)
            && settled(self.avg, new.avg, t)
            && settled(self.hot, new.hot, t)
    }
}
fn settled(old: f64, new: f64, t: ConvergenceTolerance) -> bool {
    (new - old).abs() < t.abs && ((new - old) / old).abs() < t.rel
}

struct Case {
    inputs: RunInputs,
    set: RunSettings,
    result: Result<Engine<world::AnyFluid>, RunError>,
}
fn run(points: u32, limits: Limits) -> Case {
    let Limits { inner, outer, long } = limits;
    let o = world::Opt { approach: world::Approach::Cycle, adiabatic: 0, no_drop: true };
    let mut set = world::settings(points, inner, outer);
    ode(true, !long, false);
    let mut c = verif::cfg();
    c.fails_anew = true;
    verif::reset(c);
    if long {
        // a long history: the cycles repeat from some cycle on, the temperatures settle at some iteration,
        // and before that they clearly do not
        let abs = sym::real("tolerance", 1e-3, 0.5);
        set.loop_tol.inner = ConvergenceTolerance { abs, rel: 1e3 };
        set.loop_tol.outer = ConvergenceTolerance { abs, rel: 1e12 };
        let at = if inner > 1 { sym::choice("cycle", 1 + inner as u32) } else { sym::choice("iteration", 1 + outer as u32) } as usize;
        let mut c = verif::cfg();
        c.repeat = Some((if inner > 1 { at } else { 0 }, abs));
        verif::reset(c);
        let hold = if outer > 1 { 2 * at } else { 0 };
        unsafe { world::HOLD = hold };
        let mut old = initial_approaches();
        for i in 1..=if outer > 1 { at } else { 0 } {
            let new = approaches(2 * i);
            let d = [new[0] - old[0], new[1] - old[1], new[2] - old[2]];
            for x in [d[0], d[2], d[0] + d[1], d[2] + d[1]] {
                sym::assume(x.abs() >= abs);
            }
            old = new;
        }
    }
    sym::la(sym::La::Const([1., 2., -1., 3., 10., 20., 30., 1., 2., 3.]));
    let s = set.clone();
    let result = Engine::run::<LuSolver>(world::components(o), world::AnyFluid, world::inputs(), s);
    Case { inputs: world::inputs(), set, result }
}
struct Limits {
    inner: usize,
    outer: usize,
    long: bool,
}
/// Small limits for both loops, or a large one for one of them
fn limits() -> Limits {
    let (i, o) = (sym::param("inner"), sym::param("outer"));
    let k = sym::choice("limits", i * o + 4);
    if k >= i * o + 2 {
        return Limits { inner: (k == i * o + 2) as usize, outer: (k == i * o + 3) as usize, long: false };
    }
    if k == i * o {
        Limits { inner: sym::param("long_inner") as usize, outer: 1, long: true }
    } else if k > i * o {
        Limits { inner: 1, outer: sym::param("long_outer") as usize, long: true }
    } else {
        Limits { inner: 1 + (k % i) as usize, outer: 1 + (k / i) as usize, long: false }
    }
}
/// The approaches the components report after `cycles` integrations
fn approaches(cycles: usize) -> [f64; 3] {
    [world::cycle_approach(0, cycles), world::cycle_approach(1, cycles), world::cycle_approach(2, cycles)]
}
fn initial(i: &RunInputs) -> Temps {
    let o = world::initial_approaches();
    Temps::new(i, o[0], o[1], o[2])
}

/// A successful run has settled
#[no_mangle]
pub fn c10_convergence() {
    let limits = limits();
    let points = 2 + sym::choice("points", 2);
    let Case { inputs, set, result } = run(points, limits);
    let Ok(e) = result else {
        sym::cover("not settled");
        return;
    };
    sym::cover("settled");
    let n = verif::calls().len();
    sym::check("anything integrated", n > 0);
    if n == 0 {
        return;
    }
    let c = &verif::calls()[n - 1];
    sym::check("integrated", !c.failed);
    if c.failed {
        return;
    }
    let last = *c.y_out.last().unwrap();
    // the cycle repeats
    let t = set.loop_tol.inner;
    sym::check("T_c repeats absolutely", (last[1] - c.y0[1]).abs() < t.abs);
    sym::check("T_c repeats relatively", ((last[1] - c.y0[1]) / c.y0[1]).abs() < t.rel);
    sym::check("T_e repeats absolutely", (last[2] - c.y0[2]).abs() < t.abs);
    sym::check("T_e repeats relatively", ((last[2] - c.y0[2]) / c.y0[2]).abs() < t.rel);
    // the temperatures follow from the cycle
    let a = approaches(n);
    let new = Temps::new(&inputs, a[0], a[1], a[2]);
    let s = e.state.temp;
    let t = set.loop_tol.outer;
    for (i, (old, new)) in
        [(s.chx, new.chx), (s.regen.cold, new.cold), (s.regen.avg, new.avg), (s.regen.hot, new.hot), (s.hhx, new.hhx)].into_iter().enumerate()
    {
        sym::check_i("temperature settled absolutely", i, (new - old).abs() < t.abs);
        sym::check_i("temperature settled relatively", i, ((new - old) / old).abs() < t.rel);
    }
    // and what is returned is this cycle
    let v = &e.values;
    sym::check("length", v.time.len() == c.x_out.len() && v.P.len() == v.time.len() && v.T_c.len() == v.time.len() && v.T_e.len() == v.time.len());
    if v.time.len() == c.x_out.len() && v.P.len() == v.time.len() && v.T_c.len() == v.time.len() && v.T_e.len() == v.time.len() {
        for i in 0..v.time.len() {
            sym::eq_i("time", i, v.time[i], c.x_out[i]);
            sym::eq_i("P", i, v.P[i], c.y_out[i][0]);
            sym::eq_i("T_c", i, v.T_c[i], c.y_out[i][1]);
            sym::eq_i("T_e", i, v.T_e[i], c.y_out[i][2]);
        }
    }
    sym::check("numbers", !last[1].is_nan() && !last[2].is_nan());
}

#[derive(PartialEq)]
enum What {
    Arguments,
    Outcome,
}
/// Follow the run through its integrations
fn follow(what: &What, points: u32, case: &Case) {
    let Case { inputs, set, result } = case;
    let calls = verif::calls();
    let outcome = *what == What::Outcome;
    let period = 1. / world::frequency();
    let mut at = 0;
    let mut temps = initial(inputs);
    for o in 0..set.max_iters.outer {
        let (mut tc, mut te) = (temps.chx, temps.hhx);
        let mut found = false;
        for _ in 0..set.max_iters.inner {
            if at >= calls.len() {
                if outcome {
                    sym::check("stops before its limits", false);
                }
                return;
            }
            let c = &calls[at];
            if !outcome {
                arguments(at, c, set, period, [inputs.pres_zero, tc, te]);
            }
            at += 1;
            if c.failed {
                sym::cover("fails");
                if outcome {
                    sym::check("failed integration", matches!(result, Err(RunError::InnerLoop)));
                    sym::check("stops at a failed integration", at == calls.len());
                }
                return;
            }
            let last = *c.y_out.last().unwrap();
            if settled(tc, last[1], set.loop_tol.inner) && settled(te, last[2], set.loop_tol.inner) {
                found = true;
                break;
            }
            tc = last[1];
            te = last[2];
        }
        if !found {
            sym::cover("no steady state");
            if outcome {
                sym::check("cycle does not repeat", matches!(result, Err(RunError::InnerLoop)));
                sym::check("no more cycles", at == calls.len());
            }
            return;
        }
        // the cycle found is integrated again when another resolution is wanted
        if at < calls.len() && sym::same(calls[at].y0[1], tc) && sym::same(calls[at].y0[2], te) {
            let c = &calls[at];
            if !outcome {
                arguments(at, c, set, period, [inputs.pres_zero, tc, te]);
                sym::eq_i("output interval", at, c.dx * f64::from(points - 1), period);
            }
            at += 1;
            if c.failed {
                sym::cover("fails at last");
                if outcome {
                    sym::check("failed last integration", matches!(result, Err(RunError::InnerLoop)));
                    sym::check("stops at a failed last integration", at == calls.len());
                }
                return;
            }
        }
        let a = approaches(at);
        let new = Temps::new(inputs, a[0], a[1], a[2]);
        if temps.settled(new, set.loop_tol.outer) {
            sym::cover("settles");
            if o > 0 {
                sym::cover("settles later");
            }
            if outcome {
                sym::check("settled run is accepted", result.is_ok());
                sym::check("nothing is run after success", at == calls.len());
            }
            return;
        }
        temps = new;
    }
    sym::cover("does not settle");
    if outcome {
        sym::check("temperatures do not settle", matches!(result, Err(RunError::OuterLoop)));
        sym::check("no more outer iterations", at == calls.len());
    }
}
fn arguments(at: usize, c: &verif::Call, set: &RunSettings, period: f64, y0: [f64; 3]) {
    sym::eq_i("starts at time zero", at, c.x0, 0.);
    sym::check_i("covers a period", at, c.x_end >= period * (1. - 1e-12));
    sym::check_i("covers one period", at, c.x_end <= period * (1. + 1e-6));
    sym::eq_i("relative tolerance", at, c.rtol, set.ode_tol.rel);
    sym::eq_i("absolute tolerance", at, c.atol, set.ode_tol.abs);
    sym::eq_i("initial P", at, c.y0[0], y0[0]);
    if !y0[1].is_nan() {
        sym::eq_i("initial T_c", at, c.y0[1], y0[1]);
    }
    if !y0[2].is_nan() {
        sym::eq_i("initial T_e", at, c.y0[2], y0[2]);
    }
}
#[no_mangle]
pub fn c11_outcome() {
    let limits = limits();
    let case = run(2, limits);
    follow(&What::Outcome, 2, &case);
}
#[no_mangle]
pub fn c03_arguments() {
    let limits = limits();
    let points = 2 + sym::choice("points", 3);
    let case = run(points, limits);
    follow(&What::Arguments, points, &case);
    if let Ok(e) = &case.result {
        sym::eq("sink", e.state.temp.sink, case.inputs.temp_sink);
        sym::eq("source", e.state.temp.source, case.inputs.temp_source);
        sym::check("points", e.values.time.len() == points as usize);
        sym::cover("result");
    }
}

/// The reported cycle with rounding errors in everything computed from the frequency
#[no_mangle]
pub fn c20_resolution() {
    let n = sym::param("points") - 1;
    let k = sym::choice("points", n + sym::param("larger"));
    let points = if k < n { 2 + k } else { [34, 41, 48][(k - n) as usize] };
    verif::reset(verif::Cfg {
        may_fail: false,
        may_nan: false,
        eval: false,
        rounding: true,
        max_points: points as usize + 2,
        long_fails: false,
        fails_anew: false,
        lo: [1e5, 100., 100.],
        hi: [1e8, 3000., 3000.],
        repeat: None,
    });
    sym::la(sym::La::Const([1., 2., -1., 3., 10., 20., 30., 1., 2., 3.]));
    let o = world::Opt { approach: world::Approach::Constant, adiabatic: 3, no_drop: true };
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let set = RunSettings {
        resolution: points,
        loop_tol: LoopTolerance { inner: any, outer: any },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    sym::rounding(world::frequency());
    let result = Engine::run::<LuSolver>(world::components(o), world::AnyFluid, world::inputs(), set);
    sym::rounding(0.);
    sym::check("runs", result.is_ok());
    let Ok(e) = result else { return };
    let n = points as usize;
    let v = &e.values;
    sym::check("number of points", v.time.len() == n);
    if v.time.len() != n {
        return;
    }
    let period = 1. / world::frequency();
    sym::eq("starts at time zero", v.time[0], 0.);
    let step = period / (n as f64 - 1.);
    for i in 1..n {
        let want = step * i as f64;
        sym::le_i("not early", i, want * (1. - 1e-9), v.time[i], 0.);
        sym::le_i("not late", i, v.time[i], want * (1. + 1e-9), 0.);
    }
    sym::cover("resolution");
    if n > 2 {
        sym::cover("inner points");
    }
}

/// The output interval for many points, of which only the first are looked at
#[no_mangle]
pub fn c20_large() {
    const POINTS: [u32; 28] = [
        23, 25, 31, 32, 33, 50, 51, 60, 61, 64, 65, 100, 101, 128, 129, 200, 256, 257, 361, 500, 721, 1000, 1001, 4096, 10_000, 65_536, 65_537, 1_000_000,
    ];
    let points = POINTS[sym::choice("points", POINTS.len() as u32) as usize];
    ode(false, false, false);
    let mut c = verif::cfg();
    c.max_points = 3;
    c.long_fails = true;
    verif::reset(c);
    sym::la(sym::La::Const([1., 2., -1., 3., 10., 20., 30., 1., 2., 3.]));
    let o = world::Opt { approach: world::Approach::Constant, adiabatic: 3, no_drop: true };
    let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
    let set = RunSettings {
        resolution: points,
        loop_tol: LoopTolerance { inner: any, outer: any },
        ode_tol: OdeTolerance { abs: 1e-6, rel: 1e-6 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    let result = Engine::run::<LuSolver>(world::components(o), world::AnyFluid, world::inputs(), set);
    let calls = verif::calls();
    sym::check("run ends with the long integration", result.is_err() && !calls.is_empty() && calls[calls.len() - 1].failed);
    if calls.is_empty() {
        return;
    }
    let c = &calls[calls.len() - 1];
    // the sum of `points` intervals has at most this relative error
    let error = f64::from(points) * 2f64.powi(-53);
    let intervals = f64::from(points - 1);
    sym::check("starts at time zero", sym::same(c.x0, 0.));
    sym::le("the last point is reached", c.dx * intervals * (1. + error), c.x_end, 0.);
    sym::check("no point after it", c.dx * f64::from(points) * (1. - error) > c.x_end);
    let period = 1. / world::frequency();
    sym::le("not early", period * (1. - 1e-9), c.dx * intervals, 0.);
    sym::le("not late", c.dx * intervals, period * (1. + 1e-9), 0.);
    sym::cover("many points");
}

/// The same engine runs the same, whatever was run before
#[no_mangle]
pub fn c24_independent() {
    let adiabatic = sym::choice("adiabatic", 4);
    ode(true, false, true);
    sym::la(sym::La::Free {
        lo: [0.01, 0.01, 0.01, 0.01, -1e5, -1e5, -1e5, -1e4, -1e4, -1e8],
        hi: [1., 1., 1., 1., 1e5, 1e5, 1e5, 1e4, 1e4, 1e8],
    });
    let go = |adiabatic: u32, inputs: RunInputs, points: u32, inner: usize| {
        let o = world::Opt { approach: world::Approach::Constant, adiabatic, no_drop: false };
        let any = ConvergenceTolerance { abs: 1e12, rel: 1e12 };
        let some = ConvergenceTolerance { abs: sym::real("inner.abs", 1e-3, 1e3), rel: 1e3 };
        let set = RunSettings {
            resolution: points,
            loop_tol: LoopTolerance { inner: if inner > 1 { some } else { any }, outer: any },
            ode_tol: OdeTolerance { abs: sym::real("ode.abs", 1e-12, 1e-1), rel: sym::real("ode.rel", 1e-12, 1e-1) },
            max_iters: MaxIters { inner, outer: 1 },
        };
        Engine::run::<LuSolver>(world::components(o), world::AnyFluid, inputs, set).map(RunResults::from)
    };
    let inner = 1 + sym::choice("inner", 2) as usize;
    let a = go(adiabatic, world::inputs(), 2, inner);
    let n = verif::calls().len();
    let other = RunInputs {
        pres_zero: sym::real("other.pres_zero", 1e4, 1e9),
        temp_sink: sym::real("other.temp_sink", 50., 500.),
        temp_source: sym::real("other.temp_source", 900., 3000.),
    };
    if sym::choice("other", 2) == 1 {
        let b = go(3 - adiabatic, other, 3, 1);
        // the other run is its own as well
        let [chx, _, hhx] = initial_approaches();
        for (i, c) in verif::calls()[n..].iter().enumerate() {
            sym::eq_i("other P", i, c.y0[0], other.pres_zero);
            sym::eq_i("other T_c", i, c.y0[1], other.temp_sink + chx);
            sym::eq_i("other T_e", i, c.y0[2], other.temp_source - hhx);
        }
        match b {
            Ok(b) => {
                sym::eq("other sink", b.temperature.sink, other.temp_sink);
                sym::eq("other chx", b.temperature.chx, other.temp_sink + chx);
                sym::eq("other hhx", b.temperature.hhx, other.temp_source - hhx);
                sym::eq("other source", b.temperature.source, other.temp_source);
                sym::eq("other P", b.pressure.t_zero, other.pres_zero);
                sym::check("other points", b.values.time.len() == 3);
            }
            Err(_) => {
                sym::check("other run failed", verif::calls()[n..].iter().any(|c| c.failed));
                sym::cover("other run fails");
            }
        }
    }
    let m = verif::calls().len();
    let c = go(adiabatic, world::inputs(), 2, inner);
    let calls = verif::calls();
    sym::check("integrations", calls.len() - m == n);
    if calls.len() - m != n {
        return;
    }
    for i in 0..n {
        let (x, y) = (&calls[i], &calls[m + i]);
        for j in 0..3 {
            sym::eq_i("starts", 3 * i + j, x.y0[j], y.y0[j]);
            sym::eq_i("rates", 3 * i + j, x.dy0[j], y.dy0[j]);
        }
        sym::eq_i("ends", i, x.x_end, y.x_end);
        sym::check_i("same problem", i, x.problem == y.problem);
    }
    match (a, c) {
        (Ok(a), Ok(c)) => {
            equal_results(&a, &c);
            sym::cover("succeeds twice");
        }
        (Err(a), Err(c)) => {
            sym::check("same error", matches!(a, RunError::InnerLoop) == matches!(c, RunError::InnerLoop));
            sym::cover("fails twice");
        }
        _ => sym::check("same outcome", false),
    }
}
