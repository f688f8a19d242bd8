//! C01 tiling, C03 winding, C04 conformity, C05 nesting; and the input spaces shared by most checks.

use std::collections::HashMap;

use triangulate::{FanFormat, ListFormat, Polygon};

use crate::explore::*;
use crate::geom::*;
use crate::spaces::*;
use crate::subject::*;

pub type Fmap = fn(Pt) -> (f64, f64);
pub fn plain(q: Pt) -> (f64, f64) { (q.0 as f64, q.1 as f64) }
pub fn tiny(q: Pt) -> (f64, f64) { let s = (2f64).powi(-30); (q.0 as f64 * s, q.1 as f64 * s) }
pub fn huge(q: Pt) -> (f64, f64) { let s = (2f64).powi(40); (q.0 as f64 * s, q.1 as f64 * s) }
pub fn flat(q: Pt) -> (f64, f64) { (q.0 as f64 * 1024.0, q.1 as f64 / 1024.0) }
pub fn tall(q: Pt) -> (f64, f64) { (q.0 as f64 / 1024.0, q.1 as f64 * 1024.0) }
pub fn away(q: Pt) -> (f64, f64) { (q.0 as f64 - 1048576.0, q.1 as f64 + 1048576.0) }
pub fn minute(q: Pt) -> (f64, f64) { let s = (2f64).powi(-500); (q.0 as f64 * s, q.1 as f64 * s) }
pub fn vast(q: Pt) -> (f64, f64) { let s = (2f64).powi(500); (q.0 as f64 * s, q.1 as f64 * s) }
pub fn far(q: Pt) -> (f64, f64) { let s = (2f64).powi(50); (q.0 as f64 + s, q.1 as f64 - s) }
pub fn centred(q: Pt) -> (f64, f64) { (q.0 as f64 - 1.0, q.1 as f64 - 1.0) }
pub fn negative(q: Pt) -> (f64, f64) { (q.0 as f64 - 100.0, q.1 as f64 - 100.0) }
/// Zero alternates between +0 and -0.
pub fn signed_zero(q: Pt) -> (f64, f64) {
    let z = |a: i64, b: i64| if a == 0 { if b % 2 == 0 { -0.0 } else { 0.0 } } else { a as f64 };
    (z(q.0 - 1, q.1), z(q.1 - 1, q.0))
}

pub struct Space { pub name: String, pub cases: Vec<Vec<Poly>>, pub orders: Vec<Order>, pub bound: Bound, pub fmap: Fmap }
impl Space {
    pub fn new(name: impl Into<String>, cases: Vec<Vec<Poly>>, orders: &[Order], bound: Bound) -> Space { Space { name: name.into(), cases, orders: orders.to_vec(), bound, fmap: plain } }
    pub fn with(mut self, f: Fmap) -> Space { self.fmap = f; self }
    pub fn bound_text(&self) -> String { match self.bound { Bound::All => "all insertion orders".into(), b => format!("{} from each of {:?}", b.text(), self.orders) } }
}

/// How much of the common input spaces a check explores.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Size { Small, Medium, Full, Deep }

const ID: &[Order] = &[Order::Identity];
const MIXES: [Order; 8] = [Order::Identity, Order::EvenOdd, Order::Inward, Order::Stride(7), Order::Scrambled, Order::Mix(1), Order::Mix(2), Order::Mix(3)];
const TWO: &[Order] = &[Order::Identity, Order::Stride(3)];

pub fn grid_list(w: i64, h: i64, ns: std::ops::RangeInclusive<usize>) -> Vec<Vec<Poly>> { ns.flat_map(|n| singles(grid_polys(w, h, n))).collect() }

/// Single polygons.
pub fn single_spaces(size: Size, f: &mut dyn FnMut(Space)) { spaces(size, true, f) }
/// Single polygons without the coordinate range variants (for properties about the output side).
pub fn plain_spaces(size: Size, f: &mut dyn FnMut(Space)) { spaces(size, false, f) }
fn spaces(size: Size, ranges: bool, f: &mut dyn FnMut(Space)) {
    use Size::*;
    let top = match size { Small => 6, Medium => 7, Full | Deep => 9 };
    for n in 3..=top { f(Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), ID, Bound::All)); }
    if size == Medium { for n in 8..=9 { f(Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), ID, Bound::Dev(3))); } }
    for n in 4..=match size { Small => 4, _ => 5 } { f(Space::new(format!("grid4x4 n={n}"), grid_list(4, 4, n..=n), ID, Bound::All)); }
    match size {
        Small => { }
        Medium => { f(Space::new("grid4x4 n=6", grid_list(4, 4, 6..=6), ID, Bound::Dev(1))); }
        Full => {
            f(Space::new("grid4x4 n=6", grid_list(4, 4, 6..=6), ID, Bound::Dev(2)));
            f(Space::new("grid4x4 n=7", grid_list(4, 4, 7..=7), ID, Bound::Dev(1)));
        }
        Deep => {
            f(Space::new("grid4x4 n=6", grid_list(4, 4, 6..=6), ID, Bound::All));
            f(Space::new("grid4x4 n=7", grid_list(4, 4, 7..=7), TWO, Bound::Dev(3)));
            f(Space::new("grid4x4 n=8", grid_list(4, 4, 8..=8), ID, Bound::Dev(1)));
            f(Space::new("grid5x5 n=5", grid_list(5, 5, 5..=5), ID, Bound::All));
            f(Space::new("grid5x4 n=6", grid_list(5, 4, 6..=6), ID, Bound::Dev(2)));
        }
    }
    // strips: long horizontal / vertical alignments
    for (w, h) in [(5, 2), (2, 5), (6, 2), (2, 6)] {
        let (all, dev) = match size { Small => (5, 0), Medium => (6, 7), _ => (7, 9) };
        for n in 4..=all { f(Space::new(format!("grid{w}x{h} n={n}"), grid_list(w, h, n..=n), ID, if n <= 6 { Bound::All } else { Bound::Dev(3) })); }
        for n in all + 1..=dev { f(Space::new(format!("grid{w}x{h} n={n}"), grid_list(w, h, n..=n), ID, Bound::Dev(2))); }
    }
    // no two equal y
    let sh = |v: Vec<Vec<Poly>>, k: i64| -> Vec<Vec<Poly>> { v.iter().map(|p| shear(p, k)).collect() };
    for n in 4..=match size { Small => 5, Medium => 6, _ => 7 } { f(Space::new(format!("sheared 3x3 n={n}"), sh(grid_list(3, 3, n..=n), 5), ID, Bound::All)); }
    if size >= Full { f(Space::new("sheared 4x4 n=6", sh(grid_list(4, 4, 6..=6), 7), ID, Bound::Dev(1))); }
    // coordinate ranges
    let maps: [(&str, Fmap); 11] = [("minute", minute), ("vast", vast), ("far", far), ("tiny", tiny), ("huge", huge), ("flat", flat), ("tall", tall), ("away", away), ("centred", centred), ("negative", negative), ("signed zero", signed_zero)];
    for (name, m) in maps.into_iter().filter(|_| ranges) {
        for n in 3..=match size { Small => 5, Medium => 6, _ => 7 } { f(Space::new(format!("grid3x3 {name} n={n}"), grid_list(3, 3, n..=n), ID, if n <= 6 { Bound::All } else { Bound::Dev(2) }).with(m)); }
    }
    // nearly degenerate: large exact coordinates, small differences of their products
    let map = |v: Vec<Vec<Poly>>, g: fn(&[Poly]) -> Vec<Poly>| -> Vec<Vec<Poly>> { v.iter().map(|p| g(p)).collect() };
    for (name, g) in [("sliver", sliver as fn(&[Poly]) -> Vec<Poly>), ("flat sliver", sliver_flat), ("fine sliver", sliver_fine)] {
        if !ranges && name != "sliver" { continue; }
        for n in 3..=match size { Small => 5, Medium => 6, _ => 7 } { f(Space::new(format!("{name} 3x3 n={n}"), map(grid_list(3, 3, n..=n), g), ID, if n <= 5 { Bound::All } else { Bound::Dev(2) })); }
        if size >= Full && name != "fine sliver" { f(Space::new(format!("{name} 4x4 n=5"), map(grid_list(4, 4, 5..=5), g), ID, Bound::Dev(2))); }
    }
    // monotone pieces: every depth profile
    let (m1, d1, m2, d2) = match size { Small => (5, 3, 4, 2), Medium => (7, 3, 6, 2), Full => (9, 3, 7, 2), Deep => (10, 4, 9, 2) };
    for k in [0, 2, 4, 5] {
        f(Space::new(format!("mountains m={m1} d={d1} sym={k}"), mountains(m1, d1).iter().map(|p| dihedral(p, k)).collect(), TWO, Bound::Dev(0)));
    }
    for k in [0, 1, 2, 5] {
        f(Space::new(format!("two chains m={m2} d={d2} sym={k}"), two_chains(m2, d2).iter().map(|p| dihedral(p, k)).collect(), TWO, Bound::Dev(0)));
    }
    // long polygons
    let fam = |ks: &[i64], syms: &[usize]| -> Vec<Vec<Poly>> {
        let mut v = vec![];
        for (_, p) in large_polygons(ks) { for &k in syms { v.push(dihedral(&p, k)); v.push(shear(&dihedral(&p, k), 4099)); } }
        v
    };
    match size {
        Small => { f(Space::new("families n~12,20", fam(&[12, 20], &[0, 3]), TWO, Bound::Dev(0))); }
        Medium => {
            f(Space::new("families n~12", fam(&[12], &[0, 1, 2, 3, 4, 5, 6, 7]), &ORDERS, Bound::Dev(1)));
            f(Space::new("families n~20", fam(&[20], &[0, 3, 5, 6]), &ORDERS, Bound::Dev(1)));
            f(Space::new("families n~40", fam(&[40], &[0, 5, 6]), &ORDERS, Bound::Dev(0)));
        }
        Full | Deep => {
            let deep = size == Deep;
            f(Space::new("families n~12", fam(&[12], &[0, 1, 2, 3, 4, 5, 6, 7]), &ORDERS, Bound::Dev(if deep { 3 } else { 2 })));
            f(Space::new("families n~20", fam(&[20], &[0, 1, 2, 3, 4, 5, 6, 7]), &ORDERS, Bound::Dev(if deep { 2 } else { 1 })));
            f(Space::new("families n~32", fam(&[32], &[0, 3, 5, 6]), &ORDERS, Bound::Dev(1)));
            f(Space::new("families n~64", fam(&[64], &[0, 1, 2, 3, 4, 5, 6, 7]), &ORDERS, Bound::Dev(if deep { 1 } else { 0 })));
            f(Space::new("families n~160", fam(&[160], &[0, 5, 6]), &ORDERS, Bound::Dev(0)));
            f(Space::new("families n~400", fam(&[400], if deep { &[0, 3] } else { &[5] }), &ORDERS, Bound::Dev(0)));
            // (debug assertions check the whole structure after every step)
            if !cfg!(debug_assertions) {
            let huge = |n: i64| -> Vec<Vec<Poly>> { let mut v: Vec<Vec<Poly>> = huge_polygons(n).into_iter().map(|x| x.1).collect(); if deep { let w: Vec<Vec<Poly>> = v.iter().map(|p| dihedral(p, 5)).collect(); v.extend(w); } v };
            f(Space::new("long polygons n~2000", huge(2_000), &[Order::Scrambled, Order::EvenOdd], Bound::Dev(0)));
            f(Space::new("long polygons n~70000", huge(70_000), &[Order::Scrambled], Bound::Dev(0)));
            }
        }
    }
}

/// Polygon sets with two members on a grid, and the named arrangements.
pub fn multi_spaces(size: Size, f: &mut dyn FnMut(Space)) {
    use Size::*;
    // the inner ring of interior points of a 5x5 grid holds the small polygon; the outer one is free
    let g = |w, h, n| grid_polys(w, h, n);
    let inner = |n: usize| -> Vec<Poly> { g(3, 3, n).iter().map(|p| shift(p, 1, 1)).collect() };
    match size {
        Small => {
            f(Space::new("nested 4x4 (4,3)", pairs(&ccw_only(g(4, 4, 4)), &g(2, 2, 3).iter().map(|p| shift(p, 1, 1)).collect::<Vec<_>>(), Some(true)), ID, Bound::Dev(2)));
            f(Space::new("side by side 4x3 (3,3)", pairs(&g(4, 3, 3), &ccw_only(g(4, 3, 3)), Some(false)), ID, Bound::Dev(1)));
        }
        _ => {
            let big = size >= Full;
            f(Space::new("nested 4x4 (4,3)", pairs(&g(4, 4, 4), &g(2, 2, 3).iter().map(|p| shift(p, 1, 1)).collect::<Vec<_>>(), Some(true)), ID, Bound::All));
            f(Space::new("nested 4x4 (3,4)", pairs(&g(2, 2, 3).iter().map(|p| shift(p, 1, 1)).collect::<Vec<_>>(), &g(4, 4, 4), Some(true)), ID, Bound::All));
            f(Space::new("side by side 4x3 (3,3)", pairs(&g(4, 3, 3), &g(4, 3, 3), Some(false)), ID, if big { Bound::All } else { Bound::Dev(2) }));
            f(Space::new("side by side 3x4 (3,3)", pairs(&g(3, 4, 3), &g(3, 4, 3), Some(false)), ID, if big { Bound::All } else { Bound::Dev(1) }));
            f(Space::new("nested 5x5 (3,3)", pairs(&g(5, 5, 3), &inner(3), Some(true)), ID, if big { Bound::All } else { Bound::Dev(1) }));
            let thin = |v: Vec<Poly>| if big { v } else { ccw_only(v) };
            f(Space::new("nested 5x5 (4,3)", pairs(&thin(g(5, 5, 4)), &inner(3), Some(true)), ID, if size == Deep { Bound::Dev(3) } else { Bound::Dev(0) }));
            if big {
                f(Space::new("nested 5x5 (3,4) inner first", pairs(&inner(4), &g(5, 5, 3), Some(true)), ID, Bound::Dev(if size == Deep { 4 } else { 1 })));
                f(Space::new("sheared nested 5x5 (3,3)", pairs(&g(5, 5, 3), &inner(3), Some(true)).iter().map(|p| shear(p, 7)).collect(), ID, Bound::Dev(2)));
            }
        }
    }
    let syms: &[usize] = match size { Small => &[0], Medium => &[0, 3, 5], _ => &[0, 1, 2, 3, 4, 5, 6, 7] };
    let mut arr = vec![];
    for (_, p) in arrangements(size >= Medium) { for &k in syms { arr.push(dihedral(&p, k)); arr.push(shear(&dihedral(&p, k), 1009)); } }
    // long edges past many vertices (debug assertions check the whole structure after every step)
    let (n, ms, syms): (i64, &[i64], &[usize]) = match size { Small => (40, &[9], &[0]), Medium => (60, &[9], &[0, 5]), _ if cfg!(debug_assertions) => (60, &[8, 13], &[0, 1, 2, 5]), Full => (160, &[8, 13, 24], &[0, 1, 2, 3, 4, 5, 6, 7]), Deep => (400, &[8, 9, 13, 24, 40], &[0, 1, 2, 3, 4, 5, 6, 7]) };
    let mut crowd = vec![];
    for &m in ms { for p in crowds(n, m) { for &k in syms { crowd.push(dihedral(&p, k)); crowd.push(shear(&dihedral(&p, k), 4099)); } } }
    f(Space::new("crowds", crowd, if size == Small { TWO } else { &MIXES }, Bound::Dev(0)));
    if size >= Full { f(Space::new("masses", masses(if cfg!(debug_assertions) { 12 } else { 270 }), &[Order::Scrambled], Bound::Dev(0))); }
    f(Space::new("arrangements", arr, if size == Small { TWO } else { &ORDERS }, Bound::Dev(if size <= Medium { 0 } else { 1 })));
}

/// Long fans and chains; no deviations, a few orders.
pub fn long_space(n: i64, orders: &[Order]) -> Space { Space::new(format!("long fans n~{n}"), long_cases(n), orders, Bound::Dev(0)) }

/// Runs `oracle` on the triangles of every execution of a space (memoised per distinct result).
pub fn run_space(ctx: &Ctx, sp: &Space, oracle: impl Fn(&Subject, &[Tri], &mut Scratch) -> Result<(), String> + Sync) {
    ctx.suite(&sp.name, &sp.bound_text(), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let mut scratch = Scratch::default();
        let mut memo: HashMap<u64, Result<(), String>> = HashMap::new();
        let mut tris = vec![];
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            c.explore(&format!("{o:?}"), &base, sp.bound, || {
                s.triangles(&mut tris)?;
                let h = hash_tris(&tris);
                memo.entry(h).or_insert_with(|| oracle(&s, &tris, &mut scratch)).clone().map_err(|e| format!("{e}\ntriangles: {tris:?}"))?;
                Ok(h)
            });
            if c.ctx.stopped() { break; }
        }
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?} -> {:?}", sp.name, sp.cases[c.index], tris)); }
    });
}

pub fn c01(ctx: &Ctx) {
    let size = if ctx.quick() { Size::Full } else { Size::Deep };
    let oracle = |s: &Subject, t: &[Tri], sc: &mut Scratch| s.check_tiling(t, sc);
    single_spaces(size, &mut |sp| run_space(ctx, &sp, oracle));
    multi_spaces(size, &mut |sp| run_space(ctx, &sp, oracle));
}

pub fn c04(ctx: &Ctx) {
    let size = if ctx.quick() { Size::Full } else { Size::Deep };
    let oracle = |s: &Subject, t: &[Tri], _: &mut Scratch| s.check_conforming(t);
    single_spaces(size, &mut |sp| run_space(ctx, &sp, oracle));
    multi_spaces(size, &mut |sp| run_space(ctx, &sp, oracle));
}

// ------------------------------------------------------------------------------------------ C03

/// The same draws through every winding configuration.
fn windings(s: &Subject, k: usize, out: &mut Vec<Tri>) -> Result<(), String> {
    out.clear();
    macro_rules! go { ($p:expr) => { {
        use triangulate::PolygonList as _;
        let p = $p;
        match k {
            0 => p.triangulate(TriSink::<false>::new(out, &s.offs)).map_err(err_text),
            1 => p.triangulate(TriSink::<true>::new(out, &s.offs)).map_err(err_text),
            2 => p.triangulate(TriSink::<false>::new(out, &s.offs).reverse_winding()).map_err(err_text),
            3 => p.triangulate(TriSink::<true>::new(out, &s.offs).reverse_winding()).map_err(err_text),
            4 => p.triangulate(TriSink::<false>::new(out, &s.offs).reverse_winding().reverse_winding()).map_err(err_text),
            5 => p.triangulate(ListSink::<false> { out, offs: &s.offs }.into_fan_format()).map_err(err_text),
            6 => p.triangulate(ListSink::<true> { out, offs: &s.offs }.into_fan_format()).map_err(err_text),
            7 => p.triangulate(ListSink::<false> { out, offs: &s.offs }.into_fan_format().reverse_winding()).map_err(err_text),
            _ => p.triangulate(ListSink::<true> { out, offs: &s.offs }.into_fan_format().reverse_winding().reverse_winding()).map_err(err_text),
        }
    } } }
    flatten(guarded(s.fuel(), || if s.coords.len() == 1 { go!(Polygon::as_polygon_list(&s.coords[0])) } else { go!(&s.coords) }))
}
const WANT: [i64; 9] = [1, -1, -1, 1, 1, 1, -1, -1, -1];
const WNAME: [&str; 9] = ["fan builder, counterclockwise", "fan builder declaring clockwise", "reversed", "clockwise builder reversed", "reversed twice", "list builder", "list builder declaring clockwise", "list builder reversed", "clockwise list builder reversed twice"];

fn winding_space(ctx: &Ctx, sp: &Space) {
    ctx.suite(&sp.name, &format!("{} x 9 winding configurations", sp.bound_text()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let mut memo: HashMap<u64, Result<(), String>> = HashMap::new();
        let mut tris = vec![];
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            for k in 0..9 {
                c.explore(&format!("{o:?} {}", WNAME[k]), &base, sp.bound, || {
                    windings(&s, k, &mut tris)?;
                    let h = hash_tris(&tris) ^ k as u64;
                    memo.entry(h).or_insert_with(|| {
                        s.check_orientation(&tris, WANT[k])?;
                        let a: i64 = tris.iter().map(|t| cross(s.p(t[0]), s.p(t[1]), s.p(t[2]))).sum();
                        if a * WANT[k] <= 0 { return Err(format!("signed area {a} has the wrong sign")); }
                        Ok(())
                    }).clone().map_err(|e| format!("{}: {e}\ntriangles: {tris:?}", WNAME[k]))?;
                    Ok(h)
                });
            }
            if c.ctx.stopped() { break; }
        }
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?} -> {:?}", sp.name, sp.cases[c.index], tris)); }
    });
}
pub fn c03(ctx: &Ctx) {
    let size = if ctx.quick() { Size::Medium } else { Size::Full };
    single_spaces(size, &mut |sp| winding_space(ctx, &sp));
    multi_spaces(size, &mut |sp| winding_space(ctx, &sp));
    winding_space(ctx, &long_space(600, TWO));
    winding_space(ctx, &long_space(70_000, &[Order::Scrambled]));
}

// ------------------------------------------------------------------------------------------ C05

pub fn c05(ctx: &Ctx) {
    let quick = ctx.quick();
    let oracle = |s: &Subject, t: &[Tri], sc: &mut Scratch| { s.check_tiling(t, sc)?; s.check_orientation(t, 1) };
    multi_spaces(if quick { Size::Full } else { Size::Deep }, &mut |sp| run_space(ctx, &sp, oracle));
    // every list order x every direction vector of each arrangement, x start vertices
    let mut cases = vec![];
    for (_, ps) in arrangements(false) {
        if ps.len() < 2 || ps.len() > 5 { continue; }
        for perm in permutations(ps.len()) { for dirs in 0..1u32 << ps.len() {
            cases.push(perm.iter().map(|&i| if dirs >> i & 1 == 1 { reversed(&ps[i]) } else { ps[i].clone() }).collect::<Vec<Poly>>());
        } }
    }
    let sheared: Vec<Vec<Poly>> = cases.iter().map(|p| shear(p, 1009)).collect();
    run_space(ctx, &Space::new("arrangements: list order x directions", cases.clone(), TWO, Bound::Dev(if quick { 0 } else { 1 })), oracle);
    run_space(ctx, &Space::new("arrangements: list order x directions, sheared", sheared, &[Order::Reverse, Order::EvenOdd], Bound::Dev(if quick { 0 } else { 1 })), oracle);
    // every start vertex of every member, sets of up to 3
    let mut cases = vec![];
    for (_, ps) in arrangements(false) {
        if ps.len() < 2 || ps.len() > 4 { continue; }
        let total: usize = ps.iter().map(|p| p.len()).product();
        for c in 0..total { let mut x = c; cases.push(ps.iter().map(|p| { let k = x % p.len(); x /= p.len(); rotated(p, k) }).collect::<Vec<Poly>>()); }
    }
    run_space(ctx, &Space::new("arrangements: start vertices", cases, TWO, Bound::Dev(if quick { 0 } else { 1 })), oracle);
    // every nesting structure of up to five (six) polygons
    for k in 2..=if quick { 5 } else { 6 } {
        for shape in 0..3 {
            let mut cases = vec![];
            for f in forests(k) {
                let ps = forest_polys(&f, shape);
                let dirs: Vec<u32> = if k <= 4 { (0..1 << k).collect() } else { vec![0, 0b10101, 0b01101] };
                for perm in permutations(k) { for d in &dirs {
                    cases.push(perm.iter().map(|&i| if d >> i & 1 == 1 { reversed(&ps[i]) } else { ps[i].clone() }).collect::<Vec<Poly>>());
                } }
            }
            run_space(ctx, &Space::new(format!("nesting structures of {k}, shape {shape}: list order x directions"), cases, if k <= 4 { TWO } else { ID }, Bound::Dev(match (quick, k) { (true, 0..=3) => 2, (true, 4) => 1, (true, _) => 0, (_, 0..=3) => 4, (_, 4) => 2, (_, 5) => 1, _ => 0 })), oracle);
        }
    }
    // deep nesting and many parts
    let mut cases = vec![];
    for d in [6usize, 8, 12, 16, 24, 33] {
        let chain: Vec<usize> = (0..d).map(|i| i.wrapping_sub(1)).collect();
        let wide: Vec<usize> = (0..d).map(|i| if i == 0 { usize::MAX } else { 0 }).collect();
        let apart = vec![usize::MAX; d];
        let tree: Vec<usize> = (0..d).map(|i| if i == 0 { usize::MAX } else { (i - 1) / 2 }).collect();
        let combs: Vec<usize> = (0..d).map(|i| if i == 0 { usize::MAX } else if i % 2 == 1 { i.saturating_sub(2) } else { i - 1 }).collect();
        for f in [chain, wide, apart, tree, combs] { for shape in 0..3 {
            let depth = { let mut dep = vec![0; d]; for i in 0..d { if f[i] != usize::MAX { dep[i] = dep[f[i]] + 1; } } dep.into_iter().max().unwrap() };
            if depth > 8 { continue; }
            let ps = forest_polys(&f, shape);
            for r in [0, 1, d / 2] { let mut q = ps.clone(); q.rotate_left(r); cases.push(shear(&q, 1009)); q.reverse(); cases.push(q); }
        } }
        for k in 0..8 { let rings: Vec<Poly> = (0..d as i64).map(|i| { let r = 10 * (d as i64 - i); vec![(-r + i, -r - 2), (r + 1, -r + 1 - i % 3), (r - i % 5, r + 2), (-r - 1, r - 1)] }).collect();
            if is_valid_set(&rings) { let mut q = dihedral(&rings, k); if k % 2 == 1 { q.reverse(); } cases.push(q); } }
    }
    cases.retain(|c| is_valid_set(c));
    run_space(ctx, &Space::new("deep nesting, many parts", cases, &ORDERS, Bound::Dev(if quick { 0 } else { 1 })), oracle);
    // thousands of polygons
    let m = 60i64;
    let cells = |r: i64| -> Vec<Poly> { (0..m * m).map(|i| { let (x, y) = (i % m, i / m); let (a, b) = (20 * x + y % 7, 20 * y + x % 5); if (x + y) % 3 == 0 { tri_up(a, b, r) } else { vec![(a - r, b - r), (a + r, b - r + 1), (a + r, b + r), (a - r - 1, b + r + 1)] } }).collect() };
    let around = vec![square(-40, -41, 20 * m + 20, 20 * m + 21)];
    let mut cases = vec![cells(5), [around.clone(), cells(5)].concat(), [cells(6), around].concat(), [cells(6), cells(2)].concat()];
    cases[1].swap(0, 1000);
    run_space(ctx, &Space::new("thousands of polygons", cases, &[Order::Identity, Order::Scrambled], Bound::Dev(0)), oracle);
    // three polygons on a grid: every valid triple of triangles with the middle one inside the outer
    let tri: Vec<Poly> = grid_polys(3, 3, 3).iter().map(|p| shift(p, 1, 1)).collect();
    let outer: Vec<Poly> = vec![vec![(0, 0), (4, 0), (4, 4), (0, 4)], vec![(-4, 0), (8, 0), (2, 9)], vec![(-4, 4), (2, -5), (8, 4)], vec![(0, -3), (4, 2), (0, 7), (-1, 2)], vec![(0, 0), (2, -1), (4, 0), (5, 2), (4, 4), (2, 5), (0, 4), (-1, 2)]];
    let mut cases = vec![];
    for o in &outer { for (i, a) in tri.iter().enumerate() { for b in &tri[i + 1..] {
        let set = vec![o.clone(), a.clone(), b.clone()];
        if is_valid_set(&set) { cases.push(set); }
    } } }
    run_space(ctx, &Space::new("two triangle holes 5x5", cases.clone(), ID, if quick { Bound::Dev(1) } else { Bound::Dev(2) }), oracle);
    let first: Vec<Vec<Poly>> = cases.iter().map(|s| vec![s[1].clone(), s[0].clone(), s[2].clone()]).collect();
    run_space(ctx, &Space::new("two triangle holes 5x5, outer second", first, ID, Bound::Dev(if quick { 0 } else { 2 })), oracle);
    let last: Vec<Vec<Poly>> = cases.iter().map(|s| vec![s[2].clone(), s[1].clone(), s[0].clone()]).collect();
    run_space(ctx, &Space::new("two triangle holes 5x5, outer last", last, ID, Bound::Dev(if quick { 0 } else { 2 })), oracle);
    // ring in a ring on doubled grids: hole containing an island, all orientations of small shapes
    let mut cases = vec![];
    let isl: Vec<Poly> = grid_polys(3, 3, 3).into_iter().chain(grid_polys(3, 3, 4)).map(|p| shift(&p, 3, 3)).collect();
    let mids: Vec<Poly> = vec![square(2, 2, 6, 6), diamond(4, 4, 5), vec![(1, 2), (9, 3), (2, 8)]];
    for m in &mids { for i in &isl { for dir in 0..2 {
        let m = if dir == 0 { m.clone() } else { reversed(m) };
        let set = vec![square(-2, -2, 11, 11), m, i.clone()];
        if !is_valid_set(&set) { continue; }
        for p in permutations(3) { cases.push(p.iter().map(|&k| set[k].clone()).collect()); }
    } } }
    run_space(ctx, &Space::new("island in hole", cases, ID, Bound::Dev(if quick { 1 } else { 2 })), oracle);
}
