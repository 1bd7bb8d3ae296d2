//! Native replay: runs one harness over the values of a model and reports every check.
//!
//! Model file lines: `seed N`, `v NAME HEX`, `c NAME N`, `p NAME N`, `u NAME HEX.. HEX` (arguments, value).
#![allow(static_mut_refs)]
use std::collections::HashMap;

#[derive(Default)]
struct Model {
    seed: u64,
    vars: HashMap<String, f64>,
    choices: HashMap<String, u32>,
    params: HashMap<String, u32>,
    ufs: HashMap<String, Vec<(Vec<f64>, f64)>>,
    la_mode: u32,
    la_vals: Vec<f64>,
    la_calls: usize,
    la_limit: usize,
    la_known: std::collections::HashSet<Vec<u64>>,
    la_hist: Vec<(usize, Vec<f64>, Vec<f64>, Vec<f64>)>,
    failed: usize,
}
static mut MODEL: Option<Model> = None;
fn model() -> &'static mut Model {
    unsafe { MODEL.get_or_insert_with(Model::default) }
}
fn name(p: *const u8, len: usize, idx: u32) -> String {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, len)) };
    if idx == u32::MAX {
        s.to_string()
    } else {
        format!("{s}.{idx}")
    }
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
fn hash(seed: u64, s: &str, k: u64) -> f64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ mix(seed);
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    (mix(h ^ mix(k)) >> 11) as f64 / (1u64 << 53) as f64
}
fn scale(lo: f64, hi: f64, f: f64) -> f64 {
    if lo > 0.0 && hi / lo > 20.0 {
        (lo.ln() + (hi.ln() - lo.ln()) * f).exp()
    } else {
        lo + (hi - lo) * f
    }
}
fn uf_value(seed: u64, n: &str, args: &[f64], lo: f64, hi: f64) -> f64 {
    let mut t = 6.0 * hash(seed, n, 0);
    for (i, a) in args.iter().enumerate() {
        let w = 0.2 + 1.3 * hash(seed, n, 1 + i as u64);
        t += w * (1.0 + a.abs()).ln() * a.signum();
    }
    scale(lo, hi, 0.5 + 0.5 * t.sin())
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

#[no_mangle]
pub extern "C-unwind" fn __v_real(p: *const u8, len: usize, idx: u32, lo: f64, hi: f64) -> f64 {
    let n = name(p, len, idx);
    let m = model();
    match m.vars.get(&n) {
        Some(x) => *x,
        None => scale(lo, hi, hash(m.seed, &n, 0)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn __v_choice(p: *const u8, len: usize, idx: u32, n: u32) -> u32 {
    let nm = name(p, len, idx);
    let m = model();
    let c = match m.choices.get(&nm) {
        Some(x) => *x,
        None => (hash(m.seed, &nm, 0) * f64::from(n)) as u32,
    };
    c.min(n - 1)
}
fn uf(nm: &str, args: &[f64], lo: f64, hi: f64) -> f64 {
    let m = model();
    if let Some(t) = m.ufs.get(nm) {
        for (a, v) in t {
            if a.len() == args.len() && a.iter().zip(args).all(|(x, y)| close(*x, *y)) {
                return *v;
            }
        }
    }
    uf_value(m.seed, nm, args, lo, hi)
}
#[no_mangle]
pub extern "C-unwind" fn __v_uf(p: *const u8, len: usize, idx: u32, args: *const f64, n: usize, lo: f64, hi: f64) -> f64 {
    let nm = name(p, len, idx);
    let args = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(args, n) } };
    uf(&nm, args, lo, hi)
}
#[no_mangle]
pub extern "C-unwind" fn __v_same(a: f64, b: f64) -> bool {
    close(a, b)
}
struct Infeasible;
#[no_mangle]
pub extern "C-unwind" fn __v_assume(c: bool) {
    if !c {
        println!("ASSUME-FAILED");
        std::panic::panic_any(Infeasible);
    }
}
fn report(nm: &str, ok: bool, a: f64, b: f64, scale: f64) {
    println!("CHECK {} {} {:e} {:e} {:e}", nm.replace(' ', "_"), u32::from(ok), a, b, scale);
    if !ok {
        model().failed += 1;
    }
}
#[no_mangle]
pub extern "C-unwind" fn __v_check(p: *const u8, len: usize, idx: u32, c: bool) {
    report(&name(p, len, idx), c, f64::from(u8::from(c)), 1.0, 1.0);
}
fn eq(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-6 * a.abs().max(b.abs()).max(scale.abs())
}
#[no_mangle]
pub extern "C-unwind" fn __v_check_eq(p: *const u8, len: usize, idx: u32, a: f64, b: f64, scale: f64) {
    report(&name(p, len, idx), eq(a, b, scale), a, b, scale);
}
#[no_mangle]
pub extern "C-unwind" fn __v_check_eq_known(
    p: *const u8, len: usize, idx: u32, a: f64, b: f64, alt: f64, scale: f64, id: *const u8, idlen: usize,
) {
    let ok = eq(a, b, scale);
    let known = eq(a, alt, scale);
    if !ok && known {
        println!("KNOWN {} {}", name(id, idlen, u32::MAX), name(p, len, idx).replace(' ', "_"));
    }
    report(&name(p, len, idx), ok || known, a, b, scale);
}
#[no_mangle]
pub extern "C-unwind" fn __v_check_le(p: *const u8, len: usize, idx: u32, a: f64, b: f64, scale: f64) {
    let ok = a <= b + 1e-9 * a.abs().max(b.abs()).max(scale.abs());
    report(&name(p, len, idx), ok, a, b, scale);
}
#[no_mangle]
pub extern "C-unwind" fn __v_cover(p: *const u8, len: usize, idx: u32) {
    println!("COVER {}", name(p, len, idx).replace(' ', "_"));
}
#[no_mangle]
pub extern "C-unwind" fn __v_obs(p: *const u8, len: usize, idx: u32, x: f64) {
    println!("OBS {} {:016x} {:e}", name(p, len, idx).replace(' ', "_"), x.to_bits(), x);
}
#[no_mangle]
pub extern "C-unwind" fn __v_param(p: *const u8, len: usize) -> u32 {
    model().params[&name(p, len, u32::MAX)]
}
#[no_mangle]
pub extern "C-unwind" fn __v_native() -> bool {
    true
}
#[no_mangle]
pub extern "C-unwind" fn __v_deriv(_y: f64, _x: f64) -> f64 {
    unreachable!()
}
#[no_mangle]
pub extern "C-unwind" fn __v_la_set(mode: u32, vals: *const f64) {
    let m = model();
    m.la_mode = mode;
    let n = match mode {
        2 | 4 => 20,
        3 => 10,
        _ => 0,
    };
    m.la_vals = (0..n).map(|i| unsafe { *vals.add(i) }).collect();
}
#[no_mangle]
pub extern "C-unwind" fn __v_la_calls() -> usize {
    model().la_calls
}
#[no_mangle]
pub extern "C-unwind" fn __v_fresh(_p: *const u8, _len: usize, _idx: u32, x: f64) -> f64 {
    x
}
#[no_mangle]
pub extern "C-unwind" fn __v_rounding(_x: f64) {}
#[no_mangle]
pub extern "C-unwind" fn __v_la_limit(n: usize) {
    model().la_limit = n;
}
#[no_mangle]
pub extern "C-unwind" fn __v_allow_panic(_allow: bool) {}
#[no_mangle]
pub extern "C-unwind" fn __v_la_get(k: usize, what: u32, i: usize, j: usize) -> f64 {
    let (n, a, b, x) = &model().la_hist[k];
    match what {
        0 => a[i + j * n],
        1 => b[i],
        _ => x[i],
    }
}
#[no_mangle]
pub extern "C-unwind" fn __verif_la_mode() -> u32 {
    model().la_mode
}
#[no_mangle]
pub extern "C-unwind" fn __verif_la(_kind: u32, n: usize, a: *const f64, b: *const f64, x: *mut f64) -> bool {
    let ok = solve(n, a, b, x);
    let v = |p: *const f64, n: usize| unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    let m = model();
    m.la_known.insert(v(a, n * n).into_iter().chain(v(b, n)).map(f64::to_bits).collect());
    if m.la_limit > 0 && m.la_known.len() > m.la_limit {
        std::panic::panic_any(Infeasible);
    }
    m.la_calls += 1;
    m.la_hist.push((n, v(a, n * n), v(b, n), v(x, n)));
    ok
}
fn solve(n: usize, a: *const f64, b: *const f64, x: *mut f64) -> bool {
    let m = model();
    let b = unsafe { std::slice::from_raw_parts(b, n) };
    let out = unsafe { std::slice::from_raw_parts_mut(x, n) };
    match m.la_mode {
        3 => {
            for i in 0..n {
                out[i] = m.la_vals[i];
            }
            true
        }
        4 => {
            for i in 0..n {
                let nm = format!("la.{}.{i}", m.la_calls);
                out[i] = match m.vars.get(&nm) {
                    Some(x) => *x,
                    None => scale(m.la_vals[i], m.la_vals[10 + i], hash(m.seed, &nm, 0)),
                };
            }
            true
        }
        2 => {
            let (lo, hi) = (m.la_vals[..10].to_vec(), m.la_vals[10..].to_vec());
            let key: Vec<f64> = b.iter().copied().filter(|v| *v != 0.0).collect();
            for i in 0..n {
                out[i] = uf(&format!("la.{i}"), &key, lo[i], hi[i]);
            }
            true
        }
        _ => {
            // Gaussian elimination with partial pivoting and row scaling
            let a = unsafe { std::slice::from_raw_parts(a, n * n) };
            let mut w: Vec<Vec<f64>> = (0..n)
                .map(|i| {
                    let mut r: Vec<f64> = (0..n).map(|j| a[i + j * n]).collect();
                    r.push(b[i]);
                    let s = r[..n].iter().fold(0.0_f64, |m, v| m.max(v.abs()));
                    if s > 0.0 {
                        r.iter_mut().for_each(|v| *v /= s);
                    }
                    r
                })
                .collect();
            for c in 0..n {
                let p = (c..n).max_by(|i, j| w[*i][c].abs().total_cmp(&w[*j][c].abs())).unwrap();
                w.swap(c, p);
                if w[c][c] == 0.0 || w[c][c].is_nan() {
                    return false;
                }
                for r in c + 1..n {
                    let f = w[r][c] / w[c][c];
                    if f != 0.0 {
                        for k in c..=n {
                            let t = w[c][k];
                            w[r][k] -= f * t;
                        }
                    }
                }
            }
            for c in (0..n).rev() {
                let mut s = w[c][n];
                for k in c + 1..n {
                    s -= w[c][k] * out[k];
                }
                out[c] = s / w[c][c];
            }
            true
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let hex = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
    let m = model();
    for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.first() {
            Some(&"seed") => m.seed = w[1].parse().unwrap(),
            Some(&"v") => {
                m.vars.insert(w[1].into(), hex(w[2]));
            }
            Some(&"c") => {
                m.choices.insert(w[1].into(), w[2].parse().unwrap());
            }
            Some(&"p") => {
                m.params.insert(w[1].into(), w[2].parse().unwrap());
            }
            Some(&"u") => {
                let v: Vec<f64> = w[2..].iter().map(|s| hex(s)).collect();
                let (a, b) = v.split_at(v.len() - 1);
                m.ufs.entry(w[1].into()).or_default().push((a.to_vec(), b[0]));
            }
            _ => {}
        }
    }
    let h = harness::TABLE.iter().find(|(n, _)| *n == args[1]).expect("no such harness").1;
    match std::panic::catch_unwind(|| h()) {
        Ok(()) => println!("END"),
        Err(e) if e.is::<Infeasible>() => println!("INFEASIBLE"),
        Err(_) => println!("PANIC"),
    }
    std::process::exit(i32::from(model().failed > 0));
}
