//! C10 malformed lists and separators, C11 representation independence.

use std::borrow::Cow;
use std::cell::Cell;
use std::collections::HashMap;
use std::convert::{Infallible, TryFrom};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

use triangulate::{formats::*, FanBuilder, FanFormat, ListFormat, Polygon, PolygonElement, PolygonList, TriangleWinding, TriangulationError, Vertex};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::explore::*;
use crate::geom::*;
use crate::real::Fx;
use crate::real32::Fs;
use crate::spaces::*;
use crate::subject::*;

// ------------------------------------------------------------------ lists of the harness's own

/// A polygon list that yields exactly the given elements. `None` separates polygons.
pub struct Own<I, T = Option<I>> { pub verts: Vec<(I, V)>, pub items: Vec<Option<I>>, /// where to look first
    hint: fn(&I) -> usize, _t: std::marker::PhantomData<T> }
impl<I, T> Own<I, T> {
    pub fn new(verts: Vec<(I, V)>, items: Vec<Option<I>>) -> Self { Own { verts, items, hint: |_| usize::MAX, _t: std::marker::PhantomData } }
    pub fn by(mut self, hint: fn(&I) -> usize) -> Self { self.hint = hint; self }
}
impl<'p, I: Eq + Clone + Debug + 'p, T: From2<I> + Into<PolygonElement<I>> + 'p> PolygonList<'p> for Own<I, T> {
    type Vertex = V;
    type Index = I;
    type IntoItem = T;
    type Iter<'i> = std::iter::Map<std::slice::Iter<'i, Option<I>>, fn(&'i Option<I>) -> T> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.items.iter().filter(|x| x.is_some()).count() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { self.items.iter().map(|x| T::from2(x.clone())) }
    fn get_vertex<'a>(&'a self, i: I) -> &'a V where 'p: 'a {
        if let Some(v) = self.verts.get((self.hint)(&i)) { if v.0 == i { return &v.1; } }
        match self.verts.iter().find(|v| v.0 == i) { Some(v) => &v.1, None => panic!("vertex {i:?} was never issued") }
    }
}
/// Item types of `Own`.
pub trait From2<I> { fn from2(x: Option<I>) -> Self; }
impl<I> From2<I> for Option<I> { fn from2(x: Option<I>) -> Self { x } }
impl<I: Eq + Clone + Debug> From2<I> for PolygonElement<I> { fn from2(x: Option<I>) -> Self { match x { Some(i) => PolygonElement::ContinuePolygon(i), None => PolygonElement::NewPolygon } } }

/// A single polygon of the harness's own.
pub struct OwnPolygon<I> { verts: Vec<(I, Dot)> }
impl<'p, I: Eq + Clone + Debug + 'p> Polygon<'p> for OwnPolygon<I> {
    type Vertex = Dot;
    type Index = I;
    type Iter<'i> = std::iter::Map<std::slice::Iter<'i, (I, Dot)>, fn(&'i (I, Dot)) -> I> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.verts.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { self.verts.iter().map(|v| v.0.clone()) }
    fn get_vertex(&self, i: I) -> &Dot { match self.verts.iter().find(|v| v.0 == i) { Some(v) => &v.1, None => panic!("vertex {i:?} was never issued") } }
}
/// A vertex type of the harness's own.
#[derive(Clone, Debug)]
pub struct Dot { name: String, y: f32, x: f32 }
impl Vertex for Dot { type Coordinate = f32; fn x(&self) -> f32 { self.x } fn y(&self) -> f32 { self.y } }
/// A vertex without any further trait.
pub struct Bare(Fx, Fx);
impl Vertex for Bare { type Coordinate = Fx; fn x(&self) -> Fx { self.0 } fn y(&self) -> Fx { self.1 } }

/// Fan builder that maps indices with a function.
struct FnSink<'s, I> { out: &'s mut Vec<Tri>, id: &'s dyn Fn(&I) -> u32, root: u32, last: u32, calls: &'s Cell<u32> }
impl<'s, 'p, P: PolygonList<'p> + ?Sized> FanFormat<'p, P> for FnSink<'s, P::Index> {
    type Builder = Self;
    fn initialize(mut self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, Infallible> { FanBuilder::<'p, P>::new_fan(&mut self, a, b, c)?; Ok(self) }
}
impl<'s, 'p, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for FnSink<'s, P::Index> {
    type Output = ();
    type Error = Infallible;
    const WINDING: TriangleWinding = TriangleWinding::Counterclockwise;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Infallible> {
        self.calls.set(self.calls.get() + 1);
        let t = [(self.id)(&a), (self.id)(&b), (self.id)(&c)];
        self.root = t[0]; self.last = t[2];
        self.out.push(t);
        Ok(())
    }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), Infallible> { self.calls.set(self.calls.get() + 1); let v = (self.id)(&v); self.out.push([self.root, self.last, v]); self.last = v; Ok(()) }
    fn build(self) -> Result<(), Infallible> { self.calls.set(self.calls.get() + 1); Ok(()) }
    fn fail(self, _: &TriangulationError<Infallible>) { self.calls.set(self.calls.get() + 1000); }
}
fn no_err(e: TriangulationError<Infallible>) -> Seen { seen_by(&e, |_| Seen::Other("impossible".into())) }

/// Triangles of any list, one step or via a stored trapezoidation; also the number of callbacks.
fn tris_of<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, id: &dyn Fn(&P::Index) -> u32, fuel: u64, stored: bool) -> Result<(Result<Vec<Tri>, Seen>, u32), Crash> {
    let mut out = vec![];
    let calls = Cell::new(0);
    let r = guarded(fuel, || {
        let sink = FnSink { out: &mut out, id, root: 0, last: 0, calls: &calls };
        if stored {
            match p.trapezoidize() { Ok(t) => t.triangulate(sink).map_err(no_err), Err(e) => Err(no_err(TriangulationError::TrapezoidationError(e))) }
        } else { p.triangulate(sink).map_err(no_err) }
    })?;
    Ok((r.map(|_| out), calls.get()))
}

// ------------------------------------------------------------------ C10

/// Where the polygons of a sequence go: beside each other, or one around the other.
fn place(sizes: &[usize], nested: bool) -> Vec<Poly> {
    sizes.iter().enumerate().map(|(g, &k)| {
        if nested {
            let r = 60.0 * 4f64.powi((sizes.len() - g) as i32);
            (0..k).map(|i| { let a = (i as f64 + 0.25) / k as f64 * std::f64::consts::TAU; ((r * a.cos()).round() as i64, (r * a.sin()).round() as i64) }).collect()
        } else {
            let p: Poly = (0..k as i64).map(|i| (200 * g as i64 + i * i, 4 * i + (g as i64 % 3))).collect();
            if g % 2 == 1 { reversed(&p) } else { p }
        }
    }).collect()
}

fn c10_case(c: &mut Case, seq: &[bool], nested: bool, orders: &[Order], bound: Bound) {
    // groups as written (empty ones included), and without the empty ones
    let mut groups: Vec<usize> = vec![0];
    for &v in seq { if v { *groups.last_mut().unwrap() += 1; } else { groups.push(0); } }
    let full: Vec<usize> = groups.iter().copied().filter(|&k| k > 0).collect();
    let polys = place(&full, nested);
    let n: usize = full.iter().sum();
    let want = if n == 0 { Err(Seen::NoVertices) } else if let Some(k) = full.iter().find(|&&k| k < 3) { Err(Seen::NotEnoughVertices(*k)) } else { Ok(()) };
    let valid = want.is_ok();
    if valid && n <= 4000 && !is_valid_set(&polys) { panic!("harness: invalid placement {polys:?}"); }
    let subject = if valid { Some(Subject::plain(&polys)) } else { None };
    let flat: Vec<V> = polys.iter().flatten().map(|q| [Fx(q.0 as f64), Fx(q.1 as f64)]).collect();
    let verts: Vec<(usize, V)> = flat.iter().copied().enumerate().collect();
    let mut k = 0;
    let items: Vec<Option<usize>> = seq.iter().map(|&v| if v { k += 1; Some(k - 1) } else { None }).collect();
    let own_e: Own<usize, PolygonElement<usize>> = Own::new(verts.clone(), items.clone()).by(|i| *i);
    let own_o: Own<usize> = Own::new(verts, items).by(|i| *i);
    let mut at = 0;
    let vecs: Vec<Vec<V>> = groups.iter().map(|&k| { at += k; flat[at - k..at].to_vec() }).collect();
    let mut starts = vec![0u32]; for g in &groups { starts.push(starts.last().unwrap() + *g as u32); }
    let boxed: Box<[Box<[V]>]> = vecs.iter().map(|v| v.clone().into_boxed_slice()).collect();
    let polygon = &vecs[0];
    let fuel = 400_000 + 4_000 * (n * n) as u64;
    let mut memo: HashMap<u64, Result<(), String>> = HashMap::new();
    for o in orders {
        let base = base_for(*o, &full);
        c.explore(&format!("{o:?} nested={nested}"), &base, bound, || {
            let two = |i: &[usize; 2]| i.id(&starts);
            let one = |i: &usize| *i as u32;
            let mut first: Option<u64> = None;
            for rep in 0..if groups.len() == 1 { 6 } else { 5 } { for stored in [false, true] {
                if rep == 4 && (groups.len() > 65536 || groups.iter().any(|&k| k > 65536)) { continue; }
                let name = ["list of elements", "list of options", "vector of vectors", "boxed slices", "substituted index", "single polygon"][rep];
                let run = || match rep {
                    0 => tris_of(&own_e, &one, fuel, stored), 1 => tris_of(&own_o, &one, fuel, stored), 2 => tris_of(&vecs, &two, fuel, stored), 3 => tris_of(&boxed, &two, fuel, stored),
                    4 => { let w = PolygonList::index_with::<usize, u16>(vecs.clone()); tris_of(&w, &|i: &[u16; 2]| [i[0] as usize, i[1] as usize].id(&starts), fuel, stored) }
                    _ => tris_of(Polygon::as_polygon_list(polygon), &one, fuel, stored),
                };
                let (r, calls) = if rep == 0 && !stored { run() } else { same_draws(run) }.map_err(|e| format!("{name}: {e}"))?;
                match (&want, r) {
                    (Err(w), Err(e)) => {
                        if *w != e { return Err(format!("{name}: fails with {e:?}, expected {w:?}")); }
                        if calls != 0 { return Err(format!("{name}: {calls} callbacks although the list is malformed ({e:?})")); }
                    }
                    (Err(w), Ok(t)) => return Err(format!("{name}: succeeds with {t:?}, expected {w:?}")),
                    (Ok(()), Err(e)) => return Err(format!("{name}: fails with {e:?}")),
                    (Ok(()), Ok(t)) => {
                        let h = hash_tris(&t);
                        first.get_or_insert(h);
                        let s = subject.as_ref().unwrap();
                        memo.entry(h).or_insert_with(|| { s.check_tiling(&t, &mut Scratch::default())?; s.check_orientation(&t, 1)?; s.check_conforming(&t) }).clone().map_err(|e| format!("{name}: {e}\ntriangles: {t:?}"))?;
                    }
                }
            } }
            Ok(first.unwrap_or(hash_u32s([want.is_err() as u32, full.first().copied().unwrap_or(0) as u32])))
        });
        if !valid || c.ctx.stopped() { break; }
    }
}

pub fn c10(ctx: &Ctx) {
    let top = if ctx.quick() { 18 } else { 21 };
    let seq_text = |n: usize, i: usize| (0..n).map(|b| if i >> b & 1 == 1 { 'v' } else { '|' }).collect::<String>();
    for n in 0..=top { for nested in [false, true] {
        let bound = if n <= if ctx.quick() { 15 } else { 18 } { Bound::Dev(1) } else { Bound::Dev(0) };
        ctx.suite(&format!("sequences of length {n}{}", if nested { ", nested" } else { "" }), &format!("every sequence of vertices and separators x 6 representations x one step / stored, {} from 2 orders", bound.text()), 1 << n,
            |i| format!("{} (v vertex, | separator)", seq_text(n, i)),
            |c| {
                let seq: Vec<bool> = (0..n).map(|b| c.index >> b & 1 == 1).collect();
                c10_case(c, &seq, nested, &[Order::Identity, Order::Stride(3)], bound);
                if n == 9 && c.index == 0b110111011 { c.ctx.sample(|| format!("sequence {}", seq_text(n, c.index))); }
            });
    } }
    c10_long(ctx);
    // groups of 0..5 vertices, up to five of them
    let depth = if ctx.quick() { 5 } else { 6 };
    for d in 2..=depth { for nested in [false, true] {
        ctx.suite(&format!("{d} groups of 0..5 vertices{}", if nested { ", nested" } else { "" }), "every combination of group sizes x representations", 6usize.pow(d as u32), |i| format!("group sizes {:?}", (0..d).map(|k| i / 6usize.pow(k as u32) % 6).collect::<Vec<_>>()), |c| {
            let mut seq = vec![];
            for k in 0..d { if k > 0 { seq.push(false); } for _ in 0..c.index / 6usize.pow(k as u32) % 6 { seq.push(true); } }
            c10_case(c, &seq, nested, &[Order::Identity, Order::EvenOdd], Bound::Dev(if d < 5 { 1 } else { 0 }));
        });
    } }
}

/// Separators, polygons and vertices beyond what eight or sixteen bits count, or a recursion survives.
fn c10_long(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases: Vec<(String, Vec<usize>)> = vec![];
    let runs: &[usize] = if quick { &[100, 255, 256, 257, 300, 65_535, 65_536, 65_537, 100_000] } else { &[100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000, 1_000_000] };
    for &k in runs { for (a, b) in [(0, 0), (3, 0), (0, 3), (3, 3), (1, 4), (4, 2), (2, 0), (0, 1), (4, 5)] { cases.push((format!("{a} vertices, {k} separators, {b} vertices"), [vec![a], vec![0; k - 1], vec![b]].concat())); } }
    for k in [100usize, 254, 255, 256, 257, 300, 1000] { for end in [&[][..], &[1], &[2], &[0, 2, 1], &[1, 2, 0], &[4], &[0, 0, 5]] { for start in [3, 0] {
        if start == 0 && k > 300 { continue; }
        cases.push((format!("{start}, {k} triangles, then {end:?}"), [vec![start], vec![3; k], end.to_vec()].concat()));
    } } }
    for k in [127usize, 128, 129, 130, 131, 254, 255, 256, 257, 258, 259, 512, 513, 514, 1000, 32_768, 32_769, 32_770, 65_535, 65_536, 65_537, 65_538, 65_539] { for start in [&[][..], &[0], &[3], &[3, 0, 4], &[2]] { for end in [&[][..], &[0]] {
        cases.push((format!("{start:?}, a polygon of {k} vertices, {end:?}"), [start, &[k], end].concat()));
    } } }
    ctx.suite("long runs", "runs of separators, numbers of polygons and polygon sizes around and above 127, 255, 65535 x representations x one step / stored", cases.len(), |i| cases[i].0.clone(), |c| {
        let mut seq = vec![];
        for (j, &k) in cases[c.index].1.iter().enumerate() { if j > 0 { seq.push(false); } for _ in 0..k { seq.push(true); } }
        c10_case(c, &seq, false, &[Order::Scrambled], Bound::Dev(0));
    });
}

// ------------------------------------------------------------------ C11

/// One representation: same triangles, indices addressing their vertices, de-indexed values equal.
fn probe<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, id: &dyn Fn(&P::Index) -> u32, xy: &dyn Fn(&P::Vertex) -> (f64, f64), s: &Subject, want: &[Tri]) -> Result<(), String> where P::Vertex: Clone {
    if p.vertex_count() != s.n() { return Err(format!("vertex_count is {}", p.vertex_count())); }
    let flat: Vec<(f64, f64)> = s.coords.iter().flatten().map(|q| (q[0].0, q[1].0)).collect();
    let at = |i: u32| flat[i as usize];
    // what is issued addresses the vertices in order
    let mut k = 0;
    let mut gap = false;
    for e in p.iter_indices() {
        match e.into() {
            PolygonElement::NewPolygon => gap = true,
            PolygonElement::ContinuePolygon(i) => {
                let starts = s.offs[1..s.offs.len() - 1].contains(&k);
                if k > 0 && gap != starts { return Err(format!("vertex {k} starts a polygon: {starts}, separated: {gap}")); }
                gap = false;
                if id(&i) != k { return Err(format!("index issued for vertex {k} is that of vertex {}", id(&i))); }
                if xy(p.get_vertex(i)) != at(k) { return Err(format!("index issued for vertex {k} addresses another vertex")); }
                k += 1;
            }
        }
    }
    if k as usize != s.n() { return Err(format!("{k} vertices issued")); }
    let got = same_draws(|| tris_of(p, id, s.fuel(), false)).map_err(|e| e.to_string())?.0.map_err(|e| format!("fails with {e:?}"))?;
    if got != want { return Err(format!("triangles {got:?}")); }
    let r: Result<Vec<[P::Vertex; 3]>, _> = same_draws(|| guarded(s.fuel(), || p.triangulate(DeindexedListFormat::<P, _>::new(Vec::<[P::Vertex; 3]>::new()).into_fan_format()).map_err(err_text))).map_err(|e| e.to_string())?;
    let de = r?;
    if de.len() != want.len() { return Err(format!("{} de-indexed triangles", de.len())); }
    for (t, w) in de.iter().zip(want) { for j in 0..3 { if xy(&t[j]) != at(w[j]) { return Err(format!("de-indexed vertex {:?} where {:?} belongs", xy(&t[j]), at(w[j]))); } } }
    Ok(())
}

/// A substitute index: any number, but only those a check allows.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Picky(usize);
thread_local! { static REFUSE: Cell<(usize, usize)> = const { Cell::new((usize::MAX, usize::MAX)) }; }
impl TryFrom<usize> for Picky { type Error = (); fn try_from(i: usize) -> Result<Picky, ()> { if REFUSE.with(|r| r.get().0) == i { Err(()) } else { Ok(Picky(i * 7 + 3)) } } }
impl TryFrom<Picky> for usize { type Error = (); fn try_from(p: Picky) -> Result<usize, ()> { let i = (p.0 - 3) / 7; if REFUSE.with(|r| r.get().1) == i { Err(()) } else { Ok(i) } } }
/// A pair packed into one number.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Packed(u32);
impl From<(usize, usize)> for Packed { fn from(p: (usize, usize)) -> Packed { Packed((p.0 << 16 | p.1) as u32) } }
impl From<Packed> for (usize, usize) { fn from(p: Packed) -> (usize, usize) { ((p.0 >> 16) as usize, (p.0 & 0xffff) as usize) } }

struct Zoo { s: Subject, p64: Vec<Vec<[f64; 2]>>, p32: Vec<Vec<[f32; 2]>>, t64: Vec<Vec<(f64, f64)>>, ts: Vec<Vec<(Fs, Fs)>>, t32: Vec<Vec<(f32, f32)>>,
    /// (polygon, position) of each vertex
    pos: Vec<(usize, usize)> }
impl Zoo {
    fn new(s: Subject) -> Zoo {
        macro_rules! conv { ($v:ident => $e:expr) => { s.coords.iter().map(|p| p.iter().map(|$v| $e).collect()).collect() } }
        Zoo { p64: conv!(v => [v[0].0, v[1].0]), p32: conv!(v => [v[0].0 as f32, v[1].0 as f32]), t64: conv!(v => (v[0].0, v[1].0)), ts: conv!(v => (Fs(v[0].0 as f32), Fs(v[1].0 as f32))), t32: conv!(v => (v[0].0 as f32, v[1].0 as f32)),
            pos: s.coords.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |j| (i, j))).collect(), s }
    }
    fn items<I: Clone>(&self, f: impl Fn(usize) -> I) -> (Vec<(I, V)>, Vec<Option<I>>) {
        let all: Vec<V> = self.s.coords.iter().flatten().copied().collect();
        let verts = all.iter().enumerate().map(|(i, v)| (f(i), *v)).collect();
        let mut items = vec![];
        for i in 0..all.len() { if i > 0 && self.pos[i].1 == 0 { items.push(None); } items.push(Some(f(i))); }
        (verts, items)
    }
}
const SINGLE_REPS: [&str; 25] = ["Vec<[f64; 2]>", "Vec<[f32; 2]>", "Vec<(f64, f64)>", "Vec<(f32, f32)>", "Vec<(Fs, Fs)>", "slice", "boxed slice", "Rc slice", "Arc slice", "Cow slice",
    "custom vertices and string indices", "custom polygon, negative indices", "index u8", "index u16", "index u32", "index u64", "index i8", "index i32", "index i128", "custom index", "index u32 then u8", "vector of one vector", "array reference of one slice",
    "custom index on a custom polygon", "NonZero index"];
fn single_rep(z: &Zoo, k: usize, w: &[Tri]) -> Result<(), String> {
    let s = &z.s;
    let us = |i: &usize| *i as u32;
    let f64s = |v: &[f64; 2]| (v[0], v[1]);
    let f32s = |v: &[f32; 2]| (v[0] as f64, v[1] as f64);
    let xy = |v: &V| (v[0].0, v[1].0);
    let p = &z.p64[0];
    macro_rules! sub { ($t:ty) => { { let q = Polygon::index_with::<$t>(p.clone()); probe(&q, &|i: &$t| *i as u32, &f64s, s, w) } } }
    macro_rules! pl { ($e:expr) => { Polygon::as_polygon_list($e) } }
    match k {
        0 => probe(pl!(p), &us, &f64s, s, w),
        1 => probe(pl!(&z.p32[0]), &us, &f32s, s, w),
        2 => probe(pl!(&z.t64[0]), &us, &|v: &(f64, f64)| *v, s, w),
        3 => probe(pl!(&z.t32[0]), &us, &|v: &(f32, f32)| (v.0 as f64, v.1 as f64), s, w),
        4 => probe(pl!(&z.ts[0]), &us, &|v: &(Fs, Fs)| (v.0.0 as f64, v.1.0 as f64), s, w),
        5 => { let q: &[[f64; 2]] = p; probe(pl!(&q), &us, &f64s, s, w) }
        6 => { let q = p.clone().into_boxed_slice(); probe(pl!(&q), &us, &f64s, s, w) }
        7 => { let q: Rc<[[f64; 2]]> = Rc::from(p.clone()); probe(pl!(&q), &us, &f64s, s, w) }
        8 => { let q: Arc<[[f64; 2]]> = Arc::from(p.clone()); probe(pl!(&q), &us, &f64s, s, w) }
        9 => { let q: Cow<[[f64; 2]]> = Cow::Borrowed(&p[..]); probe(pl!(&q), &us, &f64s, s, w) }
        10 => {
            let q = OwnPolygon { verts: p.iter().enumerate().map(|(i, v)| (format!("v{}", 9997 - i), Dot { name: format!("{i}"), x: v[0] as f32, y: v[1] as f32 })).collect() };
            probe(pl!(&q), &|i: &String| 9997 - i[1..].parse::<u32>().unwrap(), &|d: &Dot| (d.x as f64, d.y as f64), s, w)
        }
        11 => {
            let q = OwnPolygon { verts: p.iter().enumerate().map(|(i, v)| (-(i as i64 * 5 % 10007), Dot { name: format!("{i}"), x: v[0] as f32, y: v[1] as f32 })).collect() };
            probe(pl!(&q), &|i: &i64| (0..10007u32).find(|j| -(*j as i64 * 5 % 10007) == *i).unwrap(), &|d: &Dot| (d.x as f64, d.y as f64), s, w)
        }
        12 => sub!(u8), 13 => sub!(u16), 14 => sub!(u32), 15 => sub!(u64), 16 => sub!(i8), 17 => sub!(i32), 18 => sub!(i128),
        19 => { let q = Polygon::index_with::<Picky>(p.clone()); probe(&q, &|i: &Picky| ((i.0 - 3) / 7) as u32, &f64s, s, w) }
        20 => { let q = PolygonList::index_with::<u32, u8>(Polygon::index_with::<u32>(p.clone())); probe(&q, &|i: &u8| *i as u32, &f64s, s, w) }
        21 => probe(&z.p64, &|i: &[usize; 2]| if i[0] == 0 { i[1] as u32 } else { u32::MAX }, &f64s, s, w),
        22 => { let q: &[&[[f64; 2]]] = &[&p[..]]; probe(&q, &|i: &[usize; 2]| if i[0] == 0 { i[1] as u32 } else { u32::MAX }, &f64s, s, w) }
        23 => {
            let (v, it) = z.items(|i| i);
            let q = PolygonList::index_with::<usize, Picky>(Own::<usize>::new(v, it).by(|i| *i));
            probe(&q, &|i: &Picky| ((i.0 - 3) / 7) as u32, &xy, s, w)
        }
        _ => {
            // an index type that leaves out zero
            let (v, it) = z.items(|i| std::num::NonZeroU16::new(i as u16 + 1).unwrap());
            let q: Own<std::num::NonZeroU16, PolygonElement<std::num::NonZeroU16>> = Own::new(v, it);
            probe(&q, &|i: &std::num::NonZeroU16| i.get() as u32 - 1, &xy, s, w)
        }
    }
}
const LIST_REPS: [&str; 17] = ["Vec<Vec<[f64; 2]>>", "Vec<Vec<[f32; 2]>>", "Vec<Vec<(f32, f32)>>", "slice of slices", "boxed slices", "Rc of Arc slices", "index [u8; 2]", "index [u16; 2]", "index [i32; 2]", "index [Picky; 2]",
    "custom list, pairs", "custom list, string indices", "custom list, vectors as indices", "substituted pairs", "substituted triples", "substituted vectors", "pair packed into one number"];
fn list_rep(z: &Zoo, k: usize, w: &[Tri]) -> Result<(), String> {
    let s = &z.s;
    let at = |i: usize, j: usize| [i, j].id(&s.offs);
    let two = |i: &[usize; 2]| i.id(&s.offs);
    let f64s = |v: &[f64; 2]| (v[0], v[1]);
    let xy = |v: &V| (v[0].0, v[1].0);
    let p = &z.p64;
    macro_rules! sub { ($t:ty) => { { let q = PolygonList::index_with::<usize, $t>(p.clone()); probe(&q, &|i: &[$t; 2]| at(i[0] as usize, i[1] as usize), &f64s, s, w) } } }
    match k {
        0 => probe(p, &two, &f64s, s, w),
        1 => probe(&z.p32, &two, &|v: &[f32; 2]| (v[0] as f64, v[1] as f64), s, w),
        2 => probe(&z.t32, &two, &|v: &(f32, f32)| (v.0 as f64, v.1 as f64), s, w),
        3 => { let v: Vec<&[[f64; 2]]> = p.iter().map(|q| &q[..]).collect(); let q: &[&[[f64; 2]]] = &v; probe(&q, &two, &f64s, s, w) }
        4 => { let q: Box<[Box<[[f64; 2]]>]> = p.iter().map(|q| q.clone().into_boxed_slice()).collect(); probe(&q, &two, &f64s, s, w) }
        5 => { let v: Vec<Arc<[[f64; 2]]>> = p.iter().map(|q| Arc::from(q.clone())).collect(); let q: Rc<[Arc<[[f64; 2]]>]> = Rc::from(v); probe(&q, &two, &f64s, s, w) }
        6 => sub!(u8), 7 => sub!(u16), 8 => sub!(i32),
        9 => { let q = PolygonList::index_with::<usize, Picky>(p.clone()); probe(&q, &|i: &[Picky; 2]| at((i[0].0 - 3) / 7, (i[1].0 - 3) / 7), &f64s, s, w) }
        10 => { let (v, it) = z.items(|i| z.pos[i]); let q: Own<(usize, usize), PolygonElement<(usize, usize)>> = Own::new(v, it); probe(&q, &|i: &(usize, usize)| at(i.0, i.1), &xy, s, w) }
        11 => { let (v, it) = z.items(|i| format!("{:?}", z.pos[i])); let q: Own<String> = Own::new(v, it); probe(&q, &|i: &String| z.pos.iter().position(|p| format!("{p:?}") == *i).unwrap() as u32, &xy, s, w) }
        12 => { let (v, it) = z.items(|i| vec![z.pos[i].0, z.pos[i].1, 9]); let q: Own<Vec<usize>> = Own::new(v, it); probe(&q, &|i: &Vec<usize>| at(i[0], i[1]), &xy, s, w) }
        13 => { let (v, it) = z.items(|i| z.pos[i]); let q = PolygonList::index_with::<usize, u16>(Own::<(usize, usize)>::new(v, it)); probe(&q, &|i: &(u16, u16)| at(i.0 as usize, i.1 as usize), &xy, s, w) }
        14 => { let (v, it) = z.items(|i| (z.pos[i].1, 77, z.pos[i].0)); let q = PolygonList::index_with::<usize, i64>(Own::<(usize, usize, usize)>::new(v, it)); probe(&q, &|i: &(i64, i64, i64)| if i.1 == 77 { at(i.2 as usize, i.0 as usize) } else { u32::MAX }, &xy, s, w) }
        15 => { let (v, it) = z.items(|i| vec![z.pos[i].0, 4, z.pos[i].1]); let q = PolygonList::index_with::<usize, u8>(Own::<Vec<usize>>::new(v, it)); probe(&q, &|i: &Vec<u8>| if i.len() == 3 && i[1] == 4 { at(i[0] as usize, i[2] as usize) } else { u32::MAX }, &xy, s, w) }
        _ => { let (v, it) = z.items(|i| z.pos[i]); let q = PolygonList::index_with::<(usize, usize), Packed>(Own::<(usize, usize)>::new(v, it)); probe(&q, &|i: &Packed| { let (a, b): (usize, usize) = (*i).into(); at(a, b) }, &xy, s, w) }
    }
}

fn zoo(ctx: &Ctx, sp: &Space) {
    let single = sp.cases.first().map_or(true, |c| c.len() == 1);
    let n = if single { SINGLE_REPS.len() + LIST_REPS.len() } else { LIST_REPS.len() };
    // polygons that 32 bit arithmetic cannot tell apart
    let wide = sp.name.contains("sliver") || sp.name.contains("long") || sp.name.contains("masses");
    ctx.suite(&sp.name, &format!("{} x {n} representations", sp.bound_text()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let z = Zoo::new(Subject::new(&sp.cases[c.index], sp.fmap));
        let mut tris = vec![];
        let mut scratch = Scratch::default();
        for o in &sp.orders {
            let base = base_for(*o, &z.s.sizes);
            c.explore(&format!("{o:?}"), &base, sp.bound, || {
                z.s.triangles(&mut tris)?;
                z.s.check_tiling(&tris, &mut scratch)?;
                for k in 0..n {
                    let (of_single, k) = if single && k < SINGLE_REPS.len() { (true, k) } else { (false, if single { k - SINGLE_REPS.len() } else { k }) };
                    if wide && if of_single { [1, 3, 4, 10, 11].contains(&k) } else { [1, 2].contains(&k) } { continue; }
                    // more vertices or polygons than sixteen bits can count
                    if z.s.n() > 65_000 && !if of_single { [0, 5, 6, 7, 8, 9, 14, 15, 17, 18, 19, 21, 22, 23].contains(&k) } else { [0, 3, 4, 5, 8, 9].contains(&k) } { continue; }
                    // more vertices than eight bits can count
                    if z.s.n() > 127 && if of_single { [12, 16, 20].contains(&k) } else { [6, 15].contains(&k) } { continue; }
                    let (name, r) = if of_single { (SINGLE_REPS[k], single_rep(&z, k, &tris)) } else { (LIST_REPS[k], list_rep(&z, k, &tris)) };
                    r.map_err(|e| format!("{name}: {e}\nexpected {tris:?}"))?;
                }
                Ok(hash_tris(&tris))
            });
            if c.ctx.stopped() { return; }
        }
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?} -> {:?}", sp.name, sp.cases[c.index], tris)); }
    });
}

/// Substitute types that cannot represent some index: the call panics.
fn refusals(ctx: &Ctx) {
    let polys: Vec<Vec<Poly>> = [grid_list(3, 3, 3..=5), large_polygons(&[8]).into_iter().map(|x| x.1).collect(), arrangements(false).into_iter().map(|x| x.1).collect()].concat();
    ctx.suite("refused conversions", "every index refused in either direction, at every vertex", polys.len(), |i| format!("{:?}", polys[i]), |c| {
        let z = Zoo::new(Subject::plain(&polys[c.index]));
        let single = z.s.coords.len() == 1;
        let top = z.s.coords.iter().map(|p| p.len()).max().unwrap().max(z.s.coords.len());
        for i in 0..top { for back in [false, true] {
            c.explore(&format!("refuse {i} back={back}"), &[], Bound::Dev(0), || {
                REFUSE.with(|r| r.set(if back { (usize::MAX, i) } else { (i, usize::MAX) }));
                let r = if single { let q = Polygon::index_with::<Picky>(z.p64[0].clone()); tris_of(&q, &|i: &Picky| i.0 as u32, z.s.fuel(), false).map(|r| format!("{:?}", r.0)) }
                    else { let q = PolygonList::index_with::<usize, Picky>(z.p64.clone()); tris_of(&q, &|i: &[Picky; 2]| i[0].0 as u32, z.s.fuel(), false).map(|r| format!("{:?}", r.0)) };
                REFUSE.with(|r| r.set((usize::MAX, usize::MAX)));
                match r { Err(Crash::Panic(_)) => Ok(1), Err(Crash::Fuel) => Err("does not terminate".into()), Ok(r) => Err(format!("index {i} cannot be converted {}, but the call returned {r}", if back { "back" } else { "to the substitute" })) }
            });
            if c.ctx.stopped() { return; }
        } }
    });
    // the first index past the range of a built-in type
    let sizes: Vec<(usize, usize)> = vec![(0, 255), (0, 256), (0, 257), (0, 300), (1, 127), (1, 128), (1, 129), (2, 65536), (2, 65537), (3, 256), (3, 257), (4, 32768), (4, 32769)];
    ctx.suite("index ranges", "one below, at, and above the range of u8, i8, u16, i16 and [u8; 2]", sizes.len(), |i| format!("{:?}", sizes[i]), |c| {
        let (t, n) = sizes[c.index];
        // a long strip of n vertices
        let half = n / 2;
        let mut p: Vec<[f64; 2]> = (0..half).map(|i| [i as f64, (i % 2) as f64]).collect();
        p.extend((0..n - half).rev().map(|i| [i as f64, 3.0 + (i % 2) as f64]));
        c.explore("", &[], Bound::Dev(0), || {
            let mut out = vec![];
            let mut bad = false;
            macro_rules! go { ($t:ty) => { { let q = Polygon::index_with::<$t>(p.clone()); tris_of(&q, &|i: &$t| *i as u32, u64::MAX, false).map(|r| r.0) } } }
            let (r, fits) = match t {
                0 => (go!(u8), n <= 256), 1 => (go!(i8), n <= 128), 2 => (go!(u16), n <= 65536), 4 => (go!(i16), n <= 32768),
                _ => { let q = PolygonList::index_with::<usize, u8>(vec![p.clone()]); (tris_of(&q, &|i: &[u8; 2]| i[1] as u32, u64::MAX, false).map(|r| r.0), n <= 256) }
            };
            match (r, fits) {
                (Ok(Ok(t)), true) => {
                    if t.len() != n - 2 { return Err(format!("{} triangles", t.len())); }
                    let mut used = vec![false; n];
                    for i in t.iter().flatten() { match used.get_mut(*i as usize) { Some(u) => *u = true, None => bad = true } }
                    if bad || used.iter().any(|u| !u) { return Err("wrong indices".into()); }
                    out.extend(t);
                    Ok(hash_tris(&out))
                }
                (Err(Crash::Panic(_)), false) => Ok(7),
                (Ok(r), _) => Err(format!("{n} vertices, fits: {fits}: returned {:?}", r.map(|t| t.len()))),
                (Err(e), _) => Err(format!("{n} vertices: {e}")),
            }
        });
    });
}

pub fn c11(ctx: &Ctx) {
    let quick = ctx.quick();
    refusals(ctx);
    let id: &[Order] = &[Order::Identity];
    for n in 3..=5 { zoo(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), id, Bound::All)); }
    for n in 6..=9 { zoo(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), id, if quick { Bound::Dev(1) } else if n == 6 { Bound::All } else { Bound::Dev(2) })); }
    for n in 4..=5 { zoo(ctx, &Space::new(format!("grid4x4 n={n}"), grid_list(4, 4, n..=n), id, Bound::Dev(if quick { 0 } else { 1 }))); }
    let maps: [(&str, Fmap); 6] = [("tiny", tiny), ("huge", huge), ("flat", flat), ("centred", centred), ("negative", negative), ("signed zero", signed_zero)];
    for (name, m) in maps { zoo(ctx, &Space::new(format!("grid3x3 {name} n=3..6"), grid_list(3, 3, 3..=6), id, Bound::Dev(1)).with(m)); }
    zoo(ctx, &Space::new("sheared 3x3 n=3..6", grid_list(3, 3, 3..=6).iter().map(|p| shear(p, 5)).collect(), id, Bound::Dev(1)));
    zoo(ctx, &Space::new("sliver 3x3 n=3..6, 64 bit types", grid_list(3, 3, 3..=6).iter().map(|p| sliver(p)).collect(), id, Bound::Dev(1)));
    zoo(ctx, &Space::new("flat sliver nested 4x4 (4,3), 64 bit types", pairs(&ccw_only(grid_polys(4, 4, 4)), &grid_polys(2, 2, 3).iter().map(|p| shift(p, 1, 1)).collect::<Vec<_>>(), Some(true)).iter().map(|p| sliver_flat(p)).collect(), id, Bound::Dev(0)));
    let fam: Vec<Vec<Poly>> = large_polygons(&[12, 20]).into_iter().map(|x| x.1).flat_map(|p| [dihedral(&p, 0), dihedral(&p, 3)]).collect();
    zoo(ctx, &Space::new("families n~12,20", fam, &ORDERS, Bound::Dev(if quick { 0 } else { 1 })));
    zoo(ctx, &long_space(300, &[Order::Scrambled]));
    let mut far = long_space(70_000, &[Order::Scrambled]);
    if quick { far.cases = far.cases.into_iter().step_by(8).collect(); }
    zoo(ctx, &far);
    zoo(ctx, &Space::new("masses, 64 bit types", masses(if cfg!(debug_assertions) { 12 } else { 270 }), &[Order::Scrambled], Bound::Dev(0)));
    let g = |w, h, n| grid_polys(w, h, n);
    let inner = |n: usize| -> Vec<Poly> { g(2, 2, n).iter().map(|p| shift(p, 1, 1)).collect() };
    zoo(ctx, &Space::new("nested 4x4 (4,3)", pairs(&ccw_only(g(4, 4, 4)), &inner(3), Some(true)), id, Bound::Dev(if quick { 1 } else { 3 })));
    zoo(ctx, &Space::new("nested 4x4 (3,4)", pairs(&inner(3), &ccw_only(g(4, 4, 4)), Some(true)), id, Bound::Dev(if quick { 1 } else { 3 })));
    zoo(ctx, &Space::new("side by side 4x3 (3,3)", pairs(&g(4, 3, 3), &ccw_only(g(4, 3, 3)), Some(false)), id, Bound::Dev(if quick { 0 } else { 2 })));
    let arr: Vec<Vec<Poly>> = arrangements(true).into_iter().map(|x| x.1).filter(|p| p.len() > 1).collect();
    zoo(ctx, &Space::new("arrangements", arr, &ORDERS, Bound::Dev(if quick { 0 } else { 1 })));
}
