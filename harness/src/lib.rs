//! Harnesses: each `c??_*` function states one property over the public API of sett-rs.
#![allow(non_snake_case, clippy::too_many_lines)]
pub mod sym;
mod balance;
mod cfg;
mod de;
mod drives;
mod fluid;
mod hx;
mod report;
mod runs;
mod valid;
mod world;

pub type Harness = fn();
macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => { pub const TABLE: &[(&str, Harness)] = &[$((stringify!($f), $m::$f)),*]; };
}
table![
    balance::c07_mass,
    balance::c08_energy,
    balance::c22_directions,
    cfg::c01_components,
    cfg::c01_missing,
    cfg::c01_settings,
    cfg::c02_legacy,
    cfg::c21_run_engine,
    drives::c04_sinusoidal,
    drives::c04_rhombic,
    drives::c05_sinusoidal,
    drives::c05_rhombic,
    fluid::c06_helium,
    fluid::c06_hydrogen,
    hx::c16_chx,
    hx::c16_hhx,
    hx::c16_regen,
    report::c12_averages,
    report::c13_temperatures,
    report::c13_order,
    report::c14_power,
    report::c15_heat,
    report::c17_series,
    report::c19_questions,
    runs::c03_arguments,
    runs::c10_convergence,
    runs::c11_outcome,
    runs::c20_large,
    runs::c20_resolution,
    runs::c24_independent,
    valid::c18_lu,
    valid::c18_others,
    valid::c23_finite,
];
