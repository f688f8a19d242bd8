//! C16 work per vertex.
//!
//! Coordinate operations are counted by the coordinate type, memory by the allocator, and (in a
//! separate process under a simulator that counts instructions) everything else.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;

use triangulate::{Polygon, PolygonList};

use crate::checks::geometry::*;
use crate::explore::*;
use crate::geom::*;
use crate::real;
use crate::spaces::*;
use crate::subject::*;

struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static PEAK: Cell<i64> = const { Cell::new(0) }; }
fn grow(d: i64) { let _ = LIVE.try_with(|l| { let v = l.get() + d; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grow(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { grow(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { grow(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;


/// Limits, per vertex and averaged over the insertion orders of a case; about twice what the slowest
/// family needs, so that constant factors are free.
const OPS: f64 = 250.0;
const BYTES: f64 = 4500.0;
/// How much the average per vertex may grow from a thousand vertices to sixty times as many
/// (measured for single polygons: 1.16 for operations, 1.01 for memory; n log n instead of n log* n
/// gives 1.5). Several polygons share one structure, which only the limits above are applied to.
const GROWTH: f64 = 1.3;
/// The same for horns, from 60 to 900 steps (measured: 1.4).
const HORN_GROWTH: f64 = 2.0;
const MEMORY_GROWTH: f64 = 1.4;
/// The same for instructions, from four thousand vertices to sixteen times as many (measured: 1.10).
const INSTR_GROWTH: f64 = 1.4;
const INSTR: f64 = 30_000.0;

#[derive(Clone, Copy, Default, Debug)]
struct Cost { ops: f64, bytes: f64 }
#[derive(Default)]
struct Mean { sum: Cost, n: f64 }
impl Mean {
    fn add(&mut self, c: Cost) { self.sum.ops += c.ops; self.sum.bytes += c.bytes; self.n += 1.0; }
    fn get(&self) -> Cost { Cost { ops: self.sum.ops / self.n.max(1.0), bytes: self.sum.bytes / self.n.max(1.0) } }
}

/// Coordinate operations and memory of one triangulation, per vertex. `None`: it failed, which is
/// the business of other properties.
fn cost(s: &Subject, out: &mut Vec<Tri>) -> Result<Option<Cost>, String> {
    let fuel = 400_000 + 12_000 * s.n() as u64;
    let mut used = 0;
    out.clear();
    out.reserve(4 * s.n());
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let r = guarded(fuel, || {
        let r = if s.coords.len() == 1 { Polygon::triangulate(&s.coords[0], TriSink::<false>::new(out, &s.offs)).is_ok() }
            else { PolygonList::triangulate(&s.coords, TriSink::<false>::new(out, &s.offs)).is_ok() };
        used = fuel - real::fuel();
        r
    });
    let bytes = PEAK.with(|p| p.get()) - live;
    match r {
        Ok(true) => Ok(Some(Cost { ops: used as f64 / s.n() as f64, bytes: bytes as f64 / s.n() as f64 })),
        Err(Crash::Fuel) => Err(format!("more than {fuel} coordinate operations for {} vertices", s.n())),
        _ => Ok(None),
    }
}

/// Every insertion order of small polygons: the exact expectation.
fn expectation(ctx: &Ctx, sp: &Space) {
    let worst = Mutex::new(Cost::default());
    ctx.suite(&sp.name, &format!("{}, averaged", sp.bound_text()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let mut t = vec![];
        let mut m = Mean::default();
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            c.explore(&format!("{o:?}"), &base, sp.bound, || { if let Some(x) = cost(&s, &mut t)? { m.add(x); } Ok(t.len() as u64) });
        }
        let x = m.get();
        if c.ctx.only.is_none() || m.n > 1.0 {
            if x.ops > OPS { c.fail("", vec![], format!("{:.1} coordinate operations per vertex on average over {} orders (limit {OPS})", x.ops, m.n), true); }
            if x.bytes > BYTES { c.fail("", vec![], format!("{:.0} bytes per vertex on average over {} orders (limit {BYTES})", x.bytes, m.n), true); }
        }
        let mut w = worst.lock().unwrap(); w.ops = w.ops.max(x.ops); w.bytes = w.bytes.max(x.bytes);
    });
    let w = worst.into_inner().unwrap();
    ctx.sample(|| format!("{}: largest average per vertex: {:.1} coordinate operations, {:.0} bytes", sp.name, w.ops, w.bytes));
    if std::env::var("MC_VERBOSE").is_ok() { eprintln!("    {w:?}"); }
}

const FAMILIES: [(&str, fn(i64) -> Poly); 17] = [("bowl", bowl), ("reflex_bowl", reflex_bowl), ("hook", hook), ("lens", lens), ("comb", |n| comb(n / 2)), ("ribbon", |n| ribbon(n / 2)), ("caterpillar", |n| caterpillar(n / 2)),
    ("stairs", |n| stairs(n / 2)), ("battlement", |n| battlement(n / 4)), ("spiral", |n| spiral(n / 2)), ("star", |n| star(n / 2)), ("subdivided", |n| subdivided(n / 4)), ("teeth_both", |n| teeth_both(n / 5)), ("ragged comb", |n| ragged_comb(n / 2)),
    ("straight run", run), ("straight run, apex beside it", |n| { let mut p = run(n); p[n as usize - 1].1 = n; p }), ("slanted run", |n| run(n).into_iter().map(|(x, y)| (x + 3 * y, y)).collect())];
/// A triangle with nearly all vertices on one vertical side.
fn run(n: i64) -> Poly { let mut p: Poly = (0..n - 1).map(|i| (0, 2 * i)).collect(); p.push((5, -1)); p }
/// The family member with about `n` vertices; several copies of it beside each other when `parts > 1`.
fn member(f: usize, sym: usize, parts: i64, n: i64) -> Vec<Poly> {
    let p = FAMILIES[f].1(n / parts);
    let wide = p.iter().map(|q| q.0).max().unwrap() - p.iter().map(|q| q.0).min().unwrap() + 5;
    dihedral(&(0..parts).map(|k| if k % 2 == 0 { shift(&p, k * wide, 3 * k) } else { reversed(&shift(&p, k * wide, 3 * k)) }).collect::<Vec<_>>(), sym)
}

/// Growth of the averages with the number of vertices.
fn growth(ctx: &Ctx, sizes: &'static [(i64, u64)]) {
    let mut cases = vec![];
    for f in 0..FAMILIES.len() { for sym in if f < 14 { vec![0, 2, 4, 5] } else { (0..8).collect() } { for parts in [1, 3] { if parts == 1 || sym == 0 { cases.push((f, sym, parts)); } } } }
    let text = |i: usize| { let (f, sym, parts): (usize, usize, i64) = cases[i]; format!("{parts} x {} symmetry {sym}", FAMILIES[f].0) };
    let table = Mutex::new(BTreeMap::new());
    ctx.suite("growth", &format!("(vertices, insertion orders) {sizes:?}, fixed well-mixed orders"), cases.len(), text, |c| {
        let (f, sym, parts) = cases[c.index];
        let mut means: Vec<Cost> = vec![];
        let mut t = vec![];
        for &(n, mixes) in sizes {
            let s = Subject::new(&member(f, sym, parts, n), plain);
            let mut m = Mean::default();
            for k in 0..mixes {
                let o = Order::Mix(k);
                let base = base_for(o, &s.sizes);
                c.explore(&format!("n~{n} {o:?}"), &base, Bound::Dev(0), || { if let Some(x) = cost(&s, &mut t)? { m.add(x); } Ok(t.len() as u64) });
                if c.ctx.stopped() { return; }
            }
            if m.n == 0.0 { return; }
            let x = m.get();
            if x.ops > OPS { return c.fail("", vec![], format!("{:.1} coordinate operations per vertex on average at {n} vertices (limit {OPS})", x.ops), true); }
            if x.bytes > BYTES { return c.fail("", vec![], format!("{:.0} bytes per vertex on average at {n} vertices (limit {BYTES})", x.bytes), true); }
            means.push(x);
        }
        let (a, b) = (means[0], means[means.len() - 1]);
        let from = format!("{} to {} vertices", sizes[0].0, sizes[sizes.len() - 1].0);
        if parts == 1 && b.ops > a.ops * GROWTH { return c.fail("", vec![], format!("coordinate operations per vertex grow from {:.1} to {:.1} from {from}", a.ops, b.ops), true); }
        if b.bytes > a.bytes * MEMORY_GROWTH { return c.fail("", vec![], format!("memory per vertex grows from {:.0} to {:.0} bytes from {from}", a.bytes, b.bytes), true); }
        table.lock().unwrap().insert(c.index, means);
    });
    for (i, m) in table.into_inner().unwrap() {
        let line = || format!("{}: coordinate operations per vertex {}; bytes per vertex {}", text(i), m.iter().map(|x| format!("{:.1}", x.ops)).collect::<Vec<_>>().join(" "), m.iter().map(|x| format!("{:.0}", x.bytes)).collect::<Vec<_>>().join(" "));
        if i % 20 == 0 { ctx.sample(line); }
        if std::env::var("MC_VERBOSE").is_ok() { eprintln!("    {}  growth {:.3}", line(), m[m.len() - 1].ops / m[0].ops); }
    }
}

/// Horns that get wider by a constant factor with every step, as far as floating point numbers reach.
fn horns(ctx: &Ctx, sizes: &'static [(i64, u64)]) {
    let mut cases = vec![];
    for q in [1.3f64, 1.6, 2.0, 3.0] { for (up, low) in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4)] { for sym in 0..8 { cases.push((q, up, low, sym)); } } }
    ctx.suite("horns", &format!("(steps, insertion orders) {sizes:?}, fixed well-mixed orders"), cases.len(), |i| format!("{:?}", cases[i]), |c| {
        let (q, up, low, sym): (f64, i64, i64, usize) = cases[c.index];
        let mut means: Vec<Cost> = vec![];
        let mut t = vec![];
        for &(k, mixes) in sizes {
            let s = Subject::new(&[horn_steps(k, up, low)], |(x, i)| {
                let y = if i == 0 { 0.0 } else { i.signum() as f64 * q.powi(i.abs() as i32 - k as i32 / 2) };
                let (x, y) = (if sym & 1 == 0 { x as f64 } else { -x as f64 }, if sym & 2 == 0 { y } else { -y });
                if sym & 4 == 0 { (x, y) } else { (y, x) }
            });
            let mut m = Mean::default();
            for j in 0..mixes {
                let o = Order::Mix(j);
                c.explore(&format!("{k} steps {o:?}"), &base_for(o, &s.sizes), Bound::Dev(0), || { if let Some(x) = cost(&s, &mut t)? { m.add(x); } Ok(t.len() as u64) });
                if c.ctx.stopped() { return; }
            }
            if m.n == 0.0 { return; }
            let x = m.get();
            if x.ops > OPS { return c.fail("", vec![], format!("{:.1} coordinate operations per vertex on average at {k} steps (limit {OPS})", x.ops), true); }
            means.push(x);
        }
        let (a, b) = (means[0], means[means.len() - 1]);
        if b.ops > a.ops * HORN_GROWTH { return c.fail("", vec![], format!("coordinate operations per vertex grow from {:.1} to {:.1} from {} to {} steps", a.ops, b.ops, sizes[0].0, sizes[sizes.len() - 1].0), true); }
        if std::env::var("MC_VERBOSE").is_ok() { eprintln!("    {:?}: {} growth {:.3}", cases[c.index], means.iter().map(|x| format!("{:.1}", x.ops)).collect::<Vec<_>>().join(" "), b.ops / a.ops); }
    });
}

/// Instructions of one triangulation (and of setting it up), counted by a simulator.
fn instructions(ctx: &Ctx, sizes: (i64, i64)) {
    let Ok(me) = std::env::current_exe() else { return };
    let count = |case: usize, n: i64| -> Option<f64> {
        let out = std::process::Command::new("valgrind").args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"]).arg(&me).args(["measure", &case.to_string(), &n.to_string()]).output().ok()?;
        if !out.status.success() { return None; }
        let t = String::from_utf8_lossy(&out.stderr).to_string();
        let l = t.lines().find(|l| l.contains("I refs:") || l.contains("I  refs:") || l.contains("refs:"))?.split("refs:").nth(1)?.replace(',', "");
        l.trim().parse::<f64>().ok().map(|x| x / n as f64)
    };
    let table = Mutex::new(BTreeMap::new());
    let mut cases: Vec<(usize, String)> = (0..2 * FAMILIES.len()).map(|i| (i, format!("{} symmetry {}", FAMILIES[i / 2].0, if i % 2 == 0 { 0 } else { 5 }))).collect();
    for (k, name) in KINDS.iter().enumerate() { for (j, &(f, sym)) in KIND_FAMILIES.iter().enumerate() { cases.push((1000 + k * KIND_FAMILIES.len() + j, format!("{name}: {} symmetry {sym}", FAMILIES[f].0))); } }
    ctx.suite("instructions", &format!("{} and {} vertices, one fixed well-mixed order", sizes.0, sizes.1), cases.len(), |i| cases[i].1.clone(), |c| {
        c.beat();
        let case = cases[c.index].0;
        // no answer from the simulator: nothing to compare
        let Some(a) = count(case, sizes.0) else { return };
        c.beat();
        let Some(b) = count(case, sizes.1) else { return };
        c.beat();
        c.count(2, 2, 2);
        c.outcome(c.index as u64);
        if b > INSTR { return c.fail("", vec![], format!("{b:.0} instructions per vertex at {} vertices (limit {INSTR})", sizes.1), true); }
        if b > a * INSTR_GROWTH { return c.fail("", vec![], format!("instructions per vertex grow from {a:.0} to {b:.0} from {} to {} vertices", sizes.0, sizes.1), true); }
        table.lock().unwrap().insert(c.index, (a, b));
    });
    let t = table.into_inner().unwrap();
    ctx.extra.lock().unwrap().push(("instruction_counts".into(), t.len().to_string()));
    for (i, (a, b)) in t { if std::env::var("MC_VERBOSE").is_ok() { eprintln!("    {}: {a:.0} {b:.0} growth {:.3}", cases[i].1, b / a); } }
}

/// Built-in output formats and input representations.
const KINDS: [&str; 13] = ["indexed list of arrays", "indexed flat list", "indexed list, reversed", "deindexed list of arrays", "deindexed flat list", "indexed fans", "deindexed fans", "indexed fans, reversed", "delimited fans", "nested vectors", "index_with", "nested index_with", "stored"];
const KIND_FAMILIES: [(usize, usize); 5] = [(0, 0), (0, 2), (2, 0), (3, 0), (4, 5)];
fn run_kind(kind: usize, s: &Subject) {
    use triangulate::{formats::*, FanFormat, ListFormat};
    let p = &s.coords[0];
    let _ = guarded(u64::MAX / 2, || match kind {
        0 => drop(Polygon::triangulate(p, IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        1 => drop(Polygon::triangulate(p, IndexedListFormat::new(Vec::<usize>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        2 => drop(Polygon::triangulate(p, IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format().reverse_winding()).map(|v| std::hint::black_box(v.len()))),
        3 => drop(Polygon::triangulate(p, DeindexedListFormat::new(Vec::<[V; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        4 => drop(Polygon::triangulate(p, DeindexedListFormat::new(Vec::<V>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        5 => drop(Polygon::triangulate(p, IndexedFanFormat::new(Vec::<Vec<usize>>::new())).map(|v| std::hint::black_box(v.len()))),
        6 => drop(Polygon::triangulate(p, DeindexedFanFormat::new(Vec::<Vec<V>>::new())).map(|v| std::hint::black_box(v.len()))),
        7 => drop(Polygon::triangulate(p, IndexedFanFormat::new(Vec::<Vec<usize>>::new()).reverse_winding()).map(|v| std::hint::black_box(v.len()))),
        8 => drop(Polygon::triangulate(p, DelimitedFanFormat::new(Vec::<usize>::new(), usize::MAX)).map(|v| std::hint::black_box(v.len()))),
        9 => drop(PolygonList::triangulate(&s.coords, IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        10 => drop(Polygon::index_with::<u32>(p.as_slice()).triangulate(IndexedListFormat::new(Vec::<[u32; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        11 => drop(PolygonList::index_with::<usize, u32>(s.coords.as_slice()).triangulate(IndexedListFormat::new(Vec::<[[u32; 2]; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))),
        _ => { if let Ok(t) = Polygon::trapezoidize(p) { for _ in 0..3 { drop(t.triangulate(IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format()).map(|v| std::hint::black_box(v.len()))); } } }
    });
}

/// `mc measure CASE N`: one triangulation, for the instruction counter.
pub fn measure(a: &[String]) {
    let (case, n): (usize, i64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    if case >= 1000 {
        let (kind, (f, sym)) = ((case - 1000) / KIND_FAMILIES.len(), KIND_FAMILIES[(case - 1000) % KIND_FAMILIES.len()]);
        let s = Subject::new(&member(f, sym, 1, n), plain);
        with_draws(vec![], base_for(Order::Mix(0), &s.sizes), || run_kind(kind, &s));
        return;
    }
    let s = Subject::new(&member(case / 2, if case % 2 == 0 { 0 } else { 5 }, 1, n), plain);
    let base = base_for(Order::Mix(0), &s.sizes);
    let mut out = vec![];
    let _ = with_draws(vec![], base, || cost(&s, &mut out));
}

pub fn c16(ctx: &Ctx) {
    let quick = ctx.quick();
    let id = &[Order::Identity];
    for n in 3..=if quick { 8 } else { 9 } { expectation(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), id, Bound::All)); }
    for n in 4..=if quick { 5 } else { 6 } { expectation(ctx, &Space::new(format!("grid4x4 n={n}"), grid_list(4, 4, n..=n), id, Bound::All)); }
    for (w, h) in [(5, 2), (2, 5), (6, 2), (2, 6)] { for n in 5..=if quick { 7 } else { 8 } { expectation(ctx, &Space::new(format!("grid{w}x{h} n={n}"), grid_list(w, h, n..=n), id, Bound::All)); } }
    let fam: Vec<Vec<Poly>> = (0..FAMILIES.len()).flat_map(|f| [0, 2, 4, 5].map(|d| member(f, d, 1, if quick { 40 } else { 100 }))).collect();
    expectation(ctx, &Space::new("families", fam, &[0, 1, 2, 3, 4, 5, 6, 7].map(Order::Mix), Bound::Dev(1)));
    growth(ctx, if quick { &[(1_000, 64), (8_000, 16), (64_000, 8)] } else { &[(1_000, 256), (4_000, 64), (16_000, 64), (64_000, 32)] });
    horns(ctx, if quick { &[(60, 16), (900, 4)] } else { &[(60, 64), (240, 32), (900, 16)] });
    instructions(ctx, (4_000, 64_000));
}
