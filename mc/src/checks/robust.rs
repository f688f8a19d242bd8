//! C02 valid input always triangulates, C13 invalid input is contained.

use triangulate::{Polygon, PolygonList, Real};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::checks::output::{Delimited, DeFlat, IdxArr, IdxFans, Kind, Codes, Pinned, step, Ix, DELIM};
use crate::explore::*;
use crate::geom::*;
use crate::real::Fx;
use crate::real32::Fs;
use crate::spaces::*;
use crate::subject::*;

// ------------------------------------------------------------------ C02

fn terminates<T: Real + std::fmt::Debug>(coords: &Vec<Vec<[T; 2]>>, offs: &[u32], fuel: u64, out: &mut Vec<Tri>) -> Result<(), String> {
    out.clear();
    let r = guarded(fuel, || if coords.len() == 1 {
        Polygon::triangulate(unpin(&coords[0]), TriSink::<false>::new(out, offs)).map_err(err_text)
    } else {
        PolygonList::triangulate(unpin(coords), TriSink::<false>::new(out, offs)).map_err(err_text)
    });
    flatten(r)
}
/// The call returns before the reference ends; formats borrow for `'p` although nothing keeps it.
fn unpin<T>(x: &T) -> &T { unsafe { &*(x as *const T) } }

fn totals(ctx: &Ctx, sp: &Space) {
    run_space(ctx, sp, |_, _, _| Ok(()));
}

/// Coordinates that floating point can only round, for polygons without three collinear vertices.
fn rounded<T: Real + std::fmt::Debug>(ctx: &Ctx, name: &str, cases: &[Vec<Poly>], orders: &[Order], bound: Bound, f: impl Fn(i64) -> T + Sync) {
    ctx.suite(name, &format!("{} from each of {orders:?}", bound.text()), cases.len(), |i| format!("{:?}", cases[i]), |c| {
        let ps = &cases[c.index];
        let coords: Vec<Vec<[T; 2]>> = ps.iter().map(|p| p.iter().map(|q| [f(q.0), f(q.1)]).collect()).collect();
        let sizes: Vec<usize> = ps.iter().map(|p| p.len()).collect();
        let mut offs = vec![0u32];
        for s in &sizes { offs.push(offs.last().unwrap() + *s as u32); }
        let n: usize = sizes.iter().sum();
        let mut tris = vec![];
        for o in orders {
            let base = base_for(*o, &sizes);
            c.explore(&format!("{o:?}"), &base, bound, || {
                terminates(&coords, &offs, fuel_for(n), &mut tris)?;
                Ok(hash_tris(&tris))
            });
        }
        if c.index == cases.len() / 2 { c.ctx.sample(|| format!("{name}: {coords:?} -> {tris:?}")); }
    });
}

pub fn c02(ctx: &Ctx) {
    let assertions = ctx.part == "assertions";
    let size = match (ctx.quick(), assertions) { (true, false) => Size::Full, (true, true) => Size::Medium, (false, false) => Size::Deep, (false, true) => Size::Full };
    single_spaces(size, &mut |sp| totals(ctx, &sp));
    multi_spaces(size, &mut |sp| totals(ctx, &sp));
    // rounded coordinates
    let gp: Vec<Vec<Poly>> = [grid_list(3, 3, 3..=6), grid_list(4, 4, 4..=5), if ctx.quick() { vec![] } else { grid_list(4, 4, 6..=6) }].concat().into_iter().filter(|p| general_position(p)).collect();
    let b = if assertions { Bound::Dev(2) } else { Bound::All };
    let fam: Vec<Vec<Poly>> = [3usize, 5, 0].iter().flat_map(|&k| large_polygons(&[12, 20]).into_iter().map(move |x| dihedral(&x.1, k))).filter(|p| general_position(p)).collect();
    let id = &[Order::Identity];
    macro_rules! tables { ($t:ident, $($name:literal => $f:expr),*) => { $(
        rounded(ctx, concat!(stringify!($t), " ", $name, ", grid"), &gp, id, b, |k: i64| $t($f(k)));
        rounded(ctx, concat!(stringify!($t), " ", $name, ", families"), &fam, &ORDERS, Bound::Dev(1), |k: i64| $t($f(k)));
    )* } }
    tables!(Fs, "k*0.1" => |k: i64| k as f32 * 0.1, "k/3-0.7" => |k: i64| k as f32 / 3.0 - 0.7, "k*1e-12" => |k: i64| k as f32 * 1e-12, "k*1e12" => |k: i64| k as f32 * 1e12);
    tables!(Fx, "k*0.1" => |k: i64| k as f64 * 0.1, "100.1+k*0.01" => |k: i64| 100.1 + k as f64 * 0.01, "k*1e-100" => |k: i64| k as f64 * 1e-100, "k*1e100" => |k: i64| k as f64 * 1e100);
}

// ------------------------------------------------------------------ C13

/// A list of polygons made of arbitrary coordinates.
struct Raw { coords: Vec<Vec<V>>, offs: Vec<u32>, sizes: Vec<usize> }
impl Raw {
    fn new(coords: Vec<Vec<V>>) -> Raw {
        let mut offs = vec![0u32];
        for c in &coords { offs.push(offs.last().unwrap() + c.len() as u32); }
        Raw { sizes: coords.iter().map(|c| c.len()).collect(), coords, offs }
    }
}

/// The valid polygon triangulated after trouble.
fn witness() -> Subject { Subject::plain(&[vec![(0, 0), (5, 1), (2, 2), (3, 5), (-1, 4)]]) }

fn contained(r: &Raw, pin: &Pinned, codes: &Codes, fuel: u64, assertions: bool, after: &Subject, want: &[Tri]) -> Result<u64, String> {
    let log = Log::new(Mode::Quiet);
    let rec = Rec { log: &log, offs: &r.offs };
    let single = r.coords.len() == 1;
    let list = pin.list();
    let res = guarded(fuel, || if single {
        Polygon::triangulate(&list[0], RecFan::<false>(rec)).map_err(|e| seen(&e))
    } else {
        PolygonList::triangulate(list, RecFan::<false>(rec)).map_err(|e| seen(&e))
    });
    let ev = log.into_inner().ev;
    let n = *r.offs.last().unwrap();
    let bad = |t: &[u32]| t.iter().any(|&i| i >= n);
    for e in &ev {
        let wrong = match e { Ev::Init(_, t) | Ev::New(t) => bad(t), Ev::Ext(v) => bad(&[*v]), _ => false };
        if wrong { return Err(format!("an index was handed out that was not supplied: {ev:?}")); }
    }
    let mut h = hash_u32s(implied(&ev).into_iter().flatten());
    let trouble = match res {
        Ok(Ok(tok)) => {
            let addr = if single { &list[0] as *const Vec<V> as usize } else { list as *const Vec<Vec<V>> as usize };
            check_success(&ev, false, addr, &tok)?;
            false
        }
        Ok(Err(e)) => {
            h ^= 1 << 40;
            check_error_protocol(&ev, &e)?;
            // the same failure into built-in collections
            macro_rules! go { ($I:ty, $p:expr, $($K:ty),*) => { { $(for prior in [0, 1] {
                let mut coll = <$K as Kind<$I>>::prior(prior);
                let got = same_draws(|| step::<$I, $K, _>(&mut coll, $p, codes, Mode::Quiet, <$I as Ix>::foreign(DELIM), false, fuel)).map_err(|x| format!("{}: {x}", <$K as Kind<$I>>::NAME))?;
                match got { Some(o) if !o.ok => { } _ => return Err(format!("{}: failed with {e:?}, but not when repeated with the same draws", <$K as Kind<$I>>::NAME)) }
            })* } } }
            if single { go!(usize, Polygon::as_polygon_list(&list[0]), IdxFans, Delimited, DeFlat, IdxArr) } else { go!([usize; 2], list, IdxFans, Delimited, DeFlat, IdxArr) }
            true
        }
        Err(Crash::Fuel) => { h = 2; true }
        Err(Crash::Panic(m)) => { if !assertions { return Err(format!("panicked instead of returning an error: {m}")); } h = 3; true }
    };
    if trouble {
        let mut t = vec![];
        let (res, _, _) = with_draws(vec![], vec![], || after.triangles(&mut t));
        res.map_err(|e| format!("a valid triangulation afterwards: {e}"))?;
        if t != want { return Err(format!("a valid triangulation afterwards gives {t:?} instead of {want:?}")); }
    }
    Ok(h)
}

fn arbitrary(ctx: &Ctx, name: &str, orders: &[Order], bound: Bound, total: usize, make: impl Fn(usize) -> Vec<Vec<V>> + Sync) {
    let after = witness();
    let mut want = vec![];
    with_draws(vec![], vec![], || after.triangles(&mut want)).0.expect("witness");
    let assertions = ctx.part == "assertions";
    ctx.suite(name, &format!("{} from each of {orders:?}", bound.text()), total, |i| format!("{:?}", make(i)), |c| {
        let r = Raw::new(make(c.index));
        let pin = Pinned::new(&r.coords);
        let codes = Codes::new(&r.coords, &r.offs);
        for o in orders {
            let base = base_for(*o, &r.sizes);
            c.explore(&format!("{o:?}"), &base, bound, || contained(&r, &pin, &codes, 40_000, assertions, &after, &want));
            if c.ctx.stopped() { return; }
        }
        if c.index == total / 3 { c.ctx.sample(|| format!("{name}: {:?}", r.coords)); }
    });
}

fn grid(w: i64, h: i64) -> Vec<V> { (0..w * h).map(|i| [Fx((i % w) as f64), Fx((i / w) as f64)]).collect() }
fn special(vals: &[f64]) -> Vec<V> { vals.iter().flat_map(|&x| vals.iter().map(move |&y| [Fx(x), Fx(y)])).collect() }
/// Every word of length `n` over an alphabet of vertices, cut into polygons.
fn words(alpha: Vec<V>, n: usize, cuts: &'static [usize]) -> (usize, impl Fn(usize) -> Vec<Vec<V>> + Sync) {
    let g = alpha.len();
    (g.pow(n as u32), move |i: usize| -> Vec<Vec<V>> {
        let mut x = i;
        let w: Vec<V> = (0..n).map(|_| { let v = alpha[x % g]; x /= g; v }).collect();
        let mut out = vec![]; let mut at = 0;
        for &c in cuts { out.push(w[at..at + c].to_vec()); at += c; }
        if at < n { out.push(w[at..].to_vec()); }
        out
    })
}

/// Debug assertions turn many of these into panics; what must not happen is worse than that.
fn c13_assertions(ctx: &Ctx) {
    let quick = ctx.quick();
    let id: &[Order] = &[Order::Identity];
    let (inf, nan) = (f64::INFINITY, f64::NAN);
    let (n, f) = words(grid(3, 3), 3, &[]); arbitrary(ctx, "3x3, 3 vertices", id, Bound::All, n, f);
    let (n, f) = words(grid(3, 3), 4, &[]); arbitrary(ctx, "3x3, 4 vertices", id, Bound::Dev(if quick { 0 } else { 4 }), n, f);
    let (n, f) = words(grid(2, 2), 5, &[]); arbitrary(ctx, "2x2, 5 vertices", id, Bound::Dev(if quick { 0 } else { 4 }), n, f);
    let (n, f) = words(grid(3, 2), 6, &[3]); arbitrary(ctx, "3x2, two triangles", id, Bound::Dev(if quick { 0 } else { 1 }), n, f);
    let (n, f) = words(special(&[0.0, 1.0, nan, inf]), 3, &[]); arbitrary(ctx, "non-finite values, 3 vertices", id, Bound::Dev(if quick { 1 } else { 3 }), n, f);
    if !quick { let (n, f) = words(grid(3, 3), 5, &[]); arbitrary(ctx, "3x3, 5 vertices", id, Bound::Dev(0), n, f); }
}

pub fn c13(ctx: &Ctx) {
    let quick = ctx.quick();
    let id: &[Order] = &[Order::Identity];
    if ctx.part == "assertions" { return c13_assertions(ctx); }
    let two: &[Order] = &[Order::Identity, Order::Stride(3)];
    let (inf, nan) = (f64::INFINITY, f64::NAN);
    let (n, f) = words(grid(3, 3), 3, &[]); arbitrary(ctx, "3x3, 3 vertices", id, Bound::All, n, f);
    let (n, f) = words(grid(3, 3), 4, &[]); arbitrary(ctx, "3x3, 4 vertices", id, Bound::All, n, f);
    let (n, f) = words(grid(3, 3), 5, &[]); arbitrary(ctx, "3x3, 5 vertices", id, Bound::Dev(if quick { 1 } else { 4 }), n, f);
    let (n, f) = words(grid(2, 2), 6, &[]); arbitrary(ctx, "2x2, 6 vertices", id, Bound::Dev(if quick { 2 } else { 5 }), n, f);
    let (n, f) = words(grid(3, 2), 6, &[]); arbitrary(ctx, "3x2, 6 vertices", two, Bound::Dev(if quick { 0 } else { 1 }), n, f);
    let (n, f) = words(grid(2, 2), 8, &[]); arbitrary(ctx, "2x2, 8 vertices", two, Bound::Dev(if quick { 0 } else { 1 }), n, f);
    let (n, f) = words(grid(3, 2), 6, &[3]); arbitrary(ctx, "3x2, two triangles", id, Bound::Dev(if quick { 1 } else { 3 }), n, f);
    if !quick { let (n, f) = words(grid(3, 3), 6, &[3]); arbitrary(ctx, "3x3, two triangles", id, Bound::Dev(1), n, f);
                let (n, f) = words(grid(3, 3), 6, &[]); arbitrary(ctx, "3x3, 6 vertices", id, Bound::Dev(1), n, f); }
    let (n, f) = words(grid(2, 2), 9, &[3, 3]); arbitrary(ctx, "2x2, three triangles", id, Bound::Dev(if quick { 0 } else { 1 }), n, f);
    let (n, f) = words(special(&[0.0, 1.0, nan, inf, -inf]), 3, &[]); arbitrary(ctx, "non-finite values, 3 vertices", id, Bound::All, n, f);
    let (n, f) = words(special(&[0.0, 1.0, nan, inf]), 4, &[]); arbitrary(ctx, "non-finite values, 4 vertices", id, Bound::Dev(if quick { 1 } else { 3 }), n, f);
    let (n, f) = words(special(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE]), 3, &[]); arbitrary(ctx, "extreme values, 3 vertices", id, Bound::All, n, f);
    let (n, f) = words(special(&[0.0, f64::MAX, f64::MIN]), 4, &[]); arbitrary(ctx, "extreme values, 4 vertices", id, Bound::All, n, f);
    let (n, f) = words(special(&[0.0, 1.0, nan]), 5, &[]); arbitrary(ctx, "NaN, 5 vertices", id, Bound::Dev(if quick { 0 } else { 1 }), n, f);
    // long invalid polygons: two valid polygons on top of each other, and closed walks passing twice
    let mut long: Vec<Vec<Vec<V>>> = vec![];
    for (_, ps) in large_polygons(&[8, 12, 20, 40]) {
        let v: Vec<V> = ps[0].iter().map(|q| [Fx(q.0 as f64), Fx(q.1 as f64)]).collect();
        let mut twice = v.clone(); twice.extend(v.clone());
        let back: Vec<V> = v.iter().chain(v.iter().rev()).copied().collect();
        let mut closed = v.clone(); closed.push(v[0]);
        let mut swapped = v.clone(); let m = v.len() / 2; swapped.swap(m, m + 1);
        let eight: Vec<V> = v.iter().enumerate().map(|(i, q)| if i >= m { [q[0], Fx(-q[1].0)] } else { *q }).collect();
        let other: Vec<V> = v.iter().map(|q| [Fx(q[0].0 + 1.5), Fx(q[1].0 + 0.5)]).collect();
        let mut hole = v.clone(); hole[m] = [Fx(nan), hole[m][1]];
        for x in [vec![twice], vec![back], vec![closed], vec![swapped], vec![eight], vec![v.clone(), other], vec![v.clone(), v.clone()], vec![hole]] { long.push(x); }
    }
    arbitrary(ctx, "long invalid polygons", &ORDERS, Bound::Dev(if quick { 1 } else { 2 }), long.len(), |i| long[i].clone());
    // valid polygons
    let good: Vec<Vec<Vec<V>>> = [grid_list(3, 3, 3..=7), grid_list(4, 4, 4..=4)].concat().into_iter().map(|p| Subject::plain(&p).coords).collect();
    arbitrary(ctx, "valid polygons", two, Bound::Dev(1), good.len(), |i| good[i].clone());
    let multi: Vec<Vec<Vec<V>>> = arrangements(false).into_iter().map(|x| Subject::plain(&x.1).coords).collect();
    arbitrary(ctx, "valid polygon sets", two, Bound::Dev(1), multi.len(), |i| multi[i].clone());
}
