//! C08 outputs are appended completely or left alone, C09 all built-in formats agree.

use std::collections::HashMap;
use std::fmt;

use triangulate::{formats::*, Fan, FanBuilder, FanFormat, Fans, List, ListFormat, Polygon, PolygonList, TriangleWinding, TriangulationError};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::explore::*;
use crate::geom::*;
use crate::real::Fx;
use crate::spaces::*;
use crate::subject::*;

// ------------------------------------------------------------------ tee: record, maybe fail, delegate

#[derive(Debug)]
pub enum TeeErr<E> { Inj(u32), Inner(E) }
impl<E: fmt::Display> fmt::Display for TeeErr<E> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self { TeeErr::Inj(n) => write!(f, "injected error {n}"), TeeErr::Inner(e) => e.fmt(f) } } }
impl<E: fmt::Debug + fmt::Display> std::error::Error for TeeErr<E> { }

/// Wraps a fan format: records the callbacks, may raise an error before or after handing a callback
/// on (a choice each), and otherwise passes everything through.
pub struct Tee<'s, F> { pub log: &'s std::cell::RefCell<Log>, pub offs: &'s [u32], pub inner: F }
impl<'s, F> Tee<'s, F> {
    /// 0: no error, 1: before, 2: after.
    fn fault(&self, ev: Ev) -> (u64, u32) {
        let mut l = self.log.borrow_mut();
        l.ev.push(ev);
        let n = l.calls;
        l.calls += 1;
        let f = match l.mode {
            Mode::Quiet => 0,
            Mode::Choose => choose(3),
            Mode::FailAt(k) => if k / 2 == n { 1 + (k % 2) as u64 } else { 0 },
            Mode::PanicAt(k) => if n == k { l.fired = true; drop(l); std::panic::resume_unwind(Box::new("callback panic")) } else { 0 },
        };
        if f > 0 { l.fired = true; }
        (f, n)
    }
}
impl<'s, 'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for Tee<'s, F> where P::Index: ToId {
    type Builder = Tee<'s, F::Builder>;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, TeeErr<<F::Builder as FanBuilder<'p, P>>::Error>> {
        let (f, n) = self.fault(Ev::Init(p as *const P as *const () as usize, [a.id(self.offs), b.id(self.offs), c.id(self.offs)]));
        if f == 1 { return Err(TeeErr::Inj(n)); }
        let inner = self.inner.initialize(p, a, b, c).map_err(TeeErr::Inner)?;
        if f == 2 { inner.fail(&TriangulationError::NoVertices); return Err(TeeErr::Inj(n)); }
        Ok(Tee { log: self.log, offs: self.offs, inner })
    }
}
impl<'s, 'p, P: PolygonList<'p> + ?Sized, B: FanBuilder<'p, P>> FanBuilder<'p, P> for Tee<'s, B> where P::Index: ToId {
    type Output = B::Output;
    type Error = TeeErr<B::Error>;
    const WINDING: TriangleWinding = B::WINDING;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        let (f, n) = self.fault(Ev::New([a.id(self.offs), b.id(self.offs), c.id(self.offs)]));
        if f == 1 { return Err(TeeErr::Inj(n)); }
        self.inner.new_fan(a, b, c).map_err(TeeErr::Inner)?;
        if f == 2 { return Err(TeeErr::Inj(n)); }
        Ok(())
    }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), Self::Error> {
        let (f, n) = self.fault(Ev::Ext(v.id(self.offs)));
        if f == 1 { return Err(TeeErr::Inj(n)); }
        self.inner.extend_fan(v).map_err(TeeErr::Inner)?;
        if f == 2 { return Err(TeeErr::Inj(n)); }
        Ok(())
    }
    fn build(self) -> Result<B::Output, Self::Error> {
        let (f, n) = self.fault(Ev::Build);
        // a wrapper that gives up instead of building has to clean up the builder it wraps
        if f > 0 { self.inner.fail(&TriangulationError::NoVertices); return Err(TeeErr::Inj(n)); }
        self.inner.build().map_err(TeeErr::Inner)
    }
    fn fail(self, e: &TriangulationError<Self::Error>) {
        self.log.borrow_mut().ev.push(Ev::Fail(seen_by(e, |i| match i { TeeErr::Inj(n) => Seen::Injected(*n), TeeErr::Inner(e) => Seen::Other(e.to_string()) })));
        self.inner.fail(&TriangulationError::NoVertices);
    }
}

// ------------------------------------------------------------------ index and vertex codes

/// Index types of the polygon lists used here.
pub trait Ix: ToId + Eq + Clone + fmt::Debug + 'static { fn foreign(k: u32) -> Self; fn of(id: u32, offs: &[u32]) -> Self; fn code(&self, offs: &[u32]) -> u32; }
const FOREIGN: u32 = 1_000_000;
pub const DELIM: u32 = 999;
impl Ix for usize {
    fn foreign(k: u32) -> usize { (FOREIGN + k) as usize }
    fn of(id: u32, _: &[u32]) -> usize { id as usize }
    fn code(&self, _: &[u32]) -> u32 { *self as u32 }
}
impl Ix for [usize; 2] {
    fn foreign(k: u32) -> [usize; 2] { [FOREIGN as usize, k as usize] }
    fn of(id: u32, offs: &[u32]) -> [usize; 2] { let p = offs.iter().rposition(|&o| o <= id).unwrap_or(0); let p = p.min(offs.len() - 2); [p, (id - offs[p]) as usize] }
    fn code(&self, offs: &[u32]) -> u32 { if self[0] == FOREIGN as usize { FOREIGN + self[1] as u32 } else { self.id(offs) } }
}
pub struct Codes<'s> { pub offs: &'s [u32], pub by_coords: HashMap<(u64, u64), u32>, pub canon: Vec<u32> }
impl<'s> Codes<'s> {
    pub fn new(coords: &[Vec<V>], offs: &'s [u32]) -> Codes<'s> {
        let mut m = HashMap::new();
        for (i, v) in coords.iter().flatten().enumerate() { m.insert((v[0].0.to_bits(), v[1].0.to_bits()), i as u32); }
        // equal vertices cannot be told apart in de-indexed output
        let canon = coords.iter().flatten().map(|v| m[&(v[0].0.to_bits(), v[1].0.to_bits())]).collect();
        Codes { offs, by_coords: m, canon }
    }
    fn same(&self, a: &[Vec<u32>], b: &[Vec<u32>]) -> bool {
        let c = |x: u32| self.canon.get(x as usize).copied().unwrap_or(x);
        a == b || a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| c(*x) == c(*y)))
    }
    fn v(&self, v: &V) -> u32 { if v[0].0 == FV { FOREIGN + v[1].0 as u32 } else { self.by_coords.get(&(v[0].0.to_bits(), v[1].0.to_bits())).copied().unwrap_or(u32::MAX) } }
}
const FV: f64 = 123456789.0;
fn foreign_v(k: u32) -> V { [Fx(FV), Fx(k as f64)] }

// ------------------------------------------------------------------ the built-in formats

/// A built-in format with one kind of collection.
pub trait Kind<I: Ix> {
    type C: Clone;
    const NAME: &'static str;
    /// A collection that already holds `n` entries of the caller's.
    fn prior(n: u32) -> Self::C;
    /// The content as codes, one group per entry.
    fn norm(c: &Self::C, k: &Codes) -> Vec<Vec<u32>>;
    /// The entries that the fans add behind `prior`.
    fn model(prior: &[Vec<u32>], fans: &[Vec<u32>], delim: u32) -> Vec<Vec<u32>>;
    /// Triangulates into the collection by reference; true if the value returned is that collection.
    fn run<'p, P: PolygonList<'p, Index = I, Vertex = V> + ?Sized>(c: &mut Self::C, p: &'p P, log: &std::cell::RefCell<Log>, offs: &[u32], delim: I, rev: bool) -> Result<bool, Seen>;
    /// Triangulates into the collection by value, without the recording wrapper.
    fn run_value<'p, P: PolygonList<'p, Index = I, Vertex = V> + ?Sized>(c: Self::C, p: &'p P, delim: I, rev: bool) -> Result<Self::C, Seen>;
}
fn tee_seen<E: std::error::Error>(e: TriangulationError<TeeErr<E>>) -> Seen { seen_by(&e, |i| match i { TeeErr::Inj(n) => Seen::Injected(*n), TeeErr::Inner(e) => Seen::Other(e.to_string()) }) }
fn plain_seen<E: std::error::Error>(e: TriangulationError<E>) -> Seen { seen_by(&e, |i| Seen::Other(i.to_string())) }

fn expand(fans: &[Vec<u32>]) -> Vec<Vec<u32>> { fans.iter().flat_map(|f| (1..f.len() - 1).map(|i| vec![f[0], f[i], f[i + 1]]).collect::<Vec<_>>()).collect() }
fn singles_of(v: Vec<Vec<u32>>) -> Vec<Vec<u32>> { v.into_iter().flatten().map(|x| vec![x]).collect() }

/// What a flat list already holds need not be whole triangles.
fn flat_prior(n: u32) -> u32 { if n > 3 { 3 * n + 1 } else { [0, 3, 5, 7][n as usize] } }

macro_rules! kind {
    ($name:ident, $text:literal, $c:ty, $n:ident => $prior:expr, |$cc:ident, $k:ident| $norm:expr, |$pr:ident, $f:ident, $d:ident| $model:expr, |$x:ident, $dd:ident| $fmt:expr) => {
        pub struct $name;
        impl<I: Ix> Kind<I> for $name {
            type C = $c;
            const NAME: &'static str = $text;
            fn prior($n: u32) -> $c { $prior }
            fn norm($cc: &$c, $k: &Codes) -> Vec<Vec<u32>> { $norm }
            #[allow(unused_variables)]
            fn model($pr: &[Vec<u32>], $f: &[Vec<u32>], $d: u32) -> Vec<Vec<u32>> { $model }
            #[allow(unused_variables)]
            fn run<'p, P: PolygonList<'p, Index = I, Vertex = V> + ?Sized>(c: &mut $c, p: &'p P, log: &std::cell::RefCell<Log>, offs: &[u32], $dd: I, rev: bool) -> Result<bool, Seen> {
                let addr = c as *const $c as usize;
                let $x = c;
                let t = Tee { log, offs, inner: $fmt };
                let r = if rev { p.triangulate(t.reverse_winding()) } else { p.triangulate(t) };
                r.map(|o| (o as *const $c as usize) == addr).map_err(tee_seen)
            }
            #[allow(unused_variables)]
            fn run_value<'p, P: PolygonList<'p, Index = I, Vertex = V> + ?Sized>($x: $c, p: &'p P, $dd: I, rev: bool) -> Result<$c, Seen> {
                if rev { p.triangulate($fmt.reverse_winding()).map_err(plain_seen) } else { p.triangulate($fmt).map_err(plain_seen) }
            }
        }
    };
}
kind!(IdxFans, "indexed fans", Vec<Vec<I>>, n => (0..n).map(|i| (0..3 + i % 4).map(|j| I::foreign(10 * i + j)).collect()).collect(),
    |c, k| c.iter().map(|f| f.iter().map(|i| i.code(k.offs)).collect()).collect(), |_p, f, _d| f.to_vec(), |x, d| IndexedFanFormat::<P, _>::new(x));
kind!(DeFans, "de-indexed fans", Vec<Vec<V>>, n => (0..n).map(|i| (0..3 + i % 4).map(|j| foreign_v(10 * i + j)).collect()).collect(),
    |c, k| c.iter().map(|f| f.iter().map(|v| k.v(v)).collect()).collect(), |_p, f, _d| f.to_vec(), |x, d| DeindexedFanFormat::<P, _>::new(x));
kind!(Delimited, "delimited fans", Vec<I>, n => (0..3 * n).map(I::foreign).collect(),
    |c, k| c.iter().map(|i| vec![i.code(k.offs)]).collect(),
    |p, f, d| { let mut o: Vec<Vec<u32>> = vec![]; for fan in f { if !p.is_empty() || !o.is_empty() { o.push(vec![d]); } o.extend(fan.iter().map(|x| vec![*x])); } o },
    |x, d| DelimitedFanFormat::<P, _>::new(x, d));
kind!(IdxFlat, "indexed list, flat", Vec<I>, n => (0..flat_prior(n)).map(I::foreign).collect(),
    |c, k| c.iter().map(|i| vec![i.code(k.offs)]).collect(), |_p, f, _d| singles_of(expand(f)), |x, d| IndexedListFormat::<P, _>::new(x).into_fan_format());
kind!(IdxArr, "indexed list, arrays", Vec<[I; 3]>, n => (0..n).map(|i| [0, 1, 2].map(|j| I::foreign(3 * i + j))).collect(),
    |c, k| c.iter().map(|t| t.iter().map(|i| i.code(k.offs)).collect()).collect(), |_p, f, _d| expand(f), |x, d| IndexedListFormat::<P, _>::new(x).into_fan_format());
kind!(IdxTup, "indexed list, tuples", Vec<(I, I, I)>, n => (0..n).map(|i| (I::foreign(3 * i), I::foreign(3 * i + 1), I::foreign(3 * i + 2))).collect(),
    |c, k| c.iter().map(|t| vec![t.0.code(k.offs), t.1.code(k.offs), t.2.code(k.offs)]).collect(), |_p, f, _d| expand(f), |x, d| IndexedListFormat::<P, _>::new(x).into_fan_format());
kind!(DeFlat, "de-indexed list, flat", Vec<V>, n => (0..flat_prior(n)).map(foreign_v).collect(),
    |c, k| c.iter().map(|v| vec![k.v(v)]).collect(), |_p, f, _d| singles_of(expand(f)), |x, d| DeindexedListFormat::<P, _>::new(x).into_fan_format());
kind!(DeArr, "de-indexed list, arrays", Vec<[V; 3]>, n => (0..n).map(|i| [0, 1, 2].map(|j| foreign_v(3 * i + j))).collect(),
    |c, k| c.iter().map(|t| t.iter().map(|v| k.v(v)).collect()).collect(), |_p, f, _d| expand(f), |x, d| DeindexedListFormat::<P, _>::new(x).into_fan_format());
kind!(DeTup, "de-indexed list, tuples", Vec<(V, V, V)>, n => (0..n).map(|i| (foreign_v(3 * i), foreign_v(3 * i + 1), foreign_v(3 * i + 2))).collect(),
    |c, k| c.iter().map(|t| vec![k.v(&t.0), k.v(&t.1), k.v(&t.2)]).collect(), |_p, f, _d| expand(f), |x, d| DeindexedListFormat::<P, _>::new(x).into_fan_format());
// collections of the caller's own
kind!(OwnFans, "indexed fans, custom collection", Shelf<I>, n => Shelf((0..n).map(|i| Loop((0..3 + i % 4).map(|j| I::foreign(10 * i + j)).collect())).collect()),
    |c, k| c.0.iter().map(|f| f.0.iter().map(|i| i.code(k.offs)).collect()).collect(), |_p, f, _d| f.to_vec(), |x, d| IndexedFanFormat::<P, _>::new(x));
kind!(OwnList, "de-indexed list, custom collection", Bag<V>, n => Bag((0..n).flat_map(|i| [0, 1, 2].map(|j| foreign_v(3 * i + j))).collect()),
    |c, k| { let v: Vec<V> = c.0.iter().copied().collect(); v.chunks(3).map(|t| t.iter().map(|v| k.v(v)).collect()).collect() }, |_p, f, _d| expand(f), |x, d| DeindexedListFormat::<P, _>::new(x).into_fan_format());
pub const KINDS: usize = 11;

#[derive(Clone)]
pub struct Loop<T>(std::collections::VecDeque<T>);
impl<T> Fan<T> for Loop<T> { fn new(a: T, b: T, c: T) -> Self { Loop([a, b, c].into()) } fn push(&mut self, v: T) { self.0.push_back(v) } }
#[derive(Clone)]
pub struct Shelf<T>(std::collections::VecDeque<Loop<T>>);
impl<T> Fans for Shelf<T> { type Fan = Loop<T>; fn len(&self) -> usize { self.0.len() } fn truncate(&mut self, n: usize) { self.0.truncate(n) } fn push(&mut self, f: Loop<T>) { self.0.push_back(f) } }
#[derive(Clone)]
pub struct Bag<T>(std::collections::VecDeque<T>);
impl<T> List<T> for Bag<T> { fn push(&mut self, a: T, b: T, c: T) { self.0.extend([a, b, c]) } fn len(&self) -> usize { self.0.len() / 3 } fn truncate(&mut self, n: usize) { self.0.truncate(3 * n) } }

/// Calls `$body` with `$K` bound to the kind number `$k`.
macro_rules! with_kind { ($k:expr, $K:ident => $body:expr) => { match $k {
    0 => { type $K = IdxFans; $body } 1 => { type $K = DeFans; $body } 2 => { type $K = Delimited; $body } 3 => { type $K = IdxFlat; $body } 4 => { type $K = IdxArr; $body }
    5 => { type $K = IdxTup; $body } 6 => { type $K = DeFlat; $body } 7 => { type $K = DeArr; $body } 8 => { type $K = DeTup; $body } 9 => { type $K = OwnFans; $body } _ => { type $K = OwnList; $body }
} } }

fn name_of(k: usize) -> &'static str { with_kind!(k, K => <K as Kind<usize>>::NAME) }

// ------------------------------------------------------------------ C08

pub struct Obs { pub fans: Vec<Vec<u32>>, pub ok: bool }

/// One call on collection `c`: the oracle of C08. `Ok(None)`: does not terminate (only on invalid input).
pub fn step<I: Ix, K: Kind<I>, P: PolygonList<'static, Index = I, Vertex = V> + ?Sized>(c: &mut K::C, p: &'static P, codes: &Codes, mode: Mode, delim: I, rev: bool, fuel: u64) -> Result<Option<Obs>, String> {
    let before = K::norm(c, codes);
    let log = Log::new(mode);
    let r = guarded(fuel, || K::run(c, p, &log, codes.offs, delim.clone(), rev));
    let l = log.into_inner();
    let r = match r { Ok(r) => r, Err(Crash::Fuel) => return Ok(None), Err(e) => return Err(e.to_string()) };
    let after = K::norm(c, codes);
    match r {
        Ok(same) => {
            if !same { return Err("the collection returned is not the one passed in".into()); }
            let fans = implied_fans(&l.ev);
            if after.len() < before.len() || after[..before.len()] != before[..] { return Err(format!("success changed what the collection held: before {before:?}, after {after:?}")); }
            let want = K::model(&before, &fans, delim.code(codes.offs));
            if !codes.same(&after[before.len()..], &want) { return Err(format!("appended {:?} for the fans {fans:?} (expected {want:?}), prior content {before:?}", &after[before.len()..])); }
            Ok(Some(Obs { fans, ok: true }))
        }
        Err(e) => {
            if after != before { return Err(format!("failed with {e:?}, but the collection changed: before {before:?}, after {after:?}; callbacks {:?}", l.ev)); }
            Ok(Some(Obs { fans: vec![], ok: false }))
        }
    }
}

/// The coordinates live as long as the process needs them to: the formats borrow for `'static`.
pub struct Pinned { pub coords: Box<Vec<Vec<V>>> }
impl Pinned {
    pub fn new(c: &[Vec<V>]) -> Pinned { Pinned { coords: Box::new(c.to_vec()) } }
    /// The reference must not outlive `self`; every use here is a call that returns before.
    pub fn list(&self) -> &'static Vec<Vec<V>> { unsafe { &*(&*self.coords as *const _) } }
}

/// Explores one case (any list of vertices, valid or not) in every kind.
fn case_all_kinds(c: &mut Case, coords: &[Vec<V>], offs: &[u32], sizes: &[usize], orders: &[Order], bound: Bound, kinds: &[usize], priors: &[u32], mode: Mode, delims: &[Option<u32>], fuel: u64, valid: Option<&Subject>) {
    let pin = Pinned::new(coords);
    let codes = Codes::new(coords, offs);
    let mut memo: HashMap<u64, Result<(), String>> = HashMap::new();
    for o in orders { let base = base_for(*o, sizes); for &k in kinds { for &n in priors { for &d in delims { for rev in [false, true] {
        if rev && !(n == 0 && k % 3 == 0) { continue; }
        let tag = format!("{o:?} {} prior={n} delim={d:?} rev={rev}", name_of(k));
        c.explore(&tag, &base, bound, || {
            macro_rules! go { ($I:ty, $p:expr) => { with_kind!(k, K => {
                let mut coll = <K as Kind<$I>>::prior(n);
                let delim = match d { Some(id) => <$I as Ix>::of(id, offs), None => <$I as Ix>::foreign(DELIM) };
                step::<$I, K, _>(&mut coll, $p, &codes, mode, delim, rev, fuel)
            }) } }
            let r = if coords.len() == 1 { go!(usize, Polygon::as_polygon_list(&pin.list()[0])) } else { go!([usize; 2], pin.list()) };
            let r = r.map_err(|e| format!("{}: {e}", name_of(k)))?;
            let Some(obs) = r else { return if valid.is_some() { Err("does not terminate".into()) } else { Ok(1) } };
            if let (true, Some(s)) = (obs.ok, valid) {
                let tris: Vec<Tri> = expand(&obs.fans).iter().map(|t| [t[0], t[1], t[2]]).collect();
                memo.entry(hash_tris(&tris)).or_insert_with(|| s.check_tiling(&tris, &mut Scratch::default())).clone()?;
            }
            Ok(hash_u32s(obs.fans.iter().flatten().copied()) ^ obs.ok as u64)
        });
        if c.ctx.stopped() { return; }
    } } } } }
}

const NO_DELIM: &[Option<u32>] = &[None];

fn faults(ctx: &Ctx, sp: &Space, kinds: &[usize], priors: &[u32]) {
    ctx.suite(&format!("faults: {}", sp.name), &format!("{} x error before/after every callback x {} formats x prior content {priors:?}", sp.bound_text(), kinds.len()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        case_all_kinds(c, &s.coords, &s.offs, &s.sizes, &sp.orders, sp.bound, kinds, priors, Mode::Choose, NO_DELIM, s.fuel(), Some(&s));
    });
}
/// Long fans: one run per callback, format and content, with an error before or after that callback.
fn each_callback(ctx: &Ctx, sp: &Space, kinds: &[usize], prior: u32) {
    ctx.suite(&format!("each callback: {}", sp.name), &format!("{} x error before/after every callback x {} formats", sp.bound_text(), kinds.len()), sp.cases.len() * kinds.len(), |i| format!("{:?}", sp.cases[i / kinds.len()]), |c| {
        let s = Subject::new(&sp.cases[c.index / kinds.len()], sp.fmap);
        let k = kinds[c.index % kinds.len()];
        let pin = Pinned::new(&s.coords);
        let codes = Codes::new(&s.coords, &s.offs);
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            let mut at = 0;
            loop {
                let mut more = false;
                c.explore(&format!("{o:?} {} fault {at}", name_of(k)), &base, sp.bound, || {
                    let r = with_kind!(k, K => {
                        let mut coll = <K as Kind<usize>>::prior(prior);
                        step::<usize, K, _>(&mut coll, Polygon::as_polygon_list(&pin.list()[0]), &codes, Mode::FailAt(at), <usize as Ix>::foreign(DELIM), false, s.fuel())
                    }).map_err(|e| format!("{}: {e}", name_of(k)))?;
                    let Some(obs) = r else { return Err("does not terminate".into()) };
                    more = !obs.ok;
                    Ok(at as u64 * 2 + obs.ok as u64)
                });
                at += 1;
                if c.ctx.stopped() { return; }
                if !more && !(c.ctx.only.is_some() && (at as usize) < 8 * s.n() + 8) { break; }
            }
        }
    });
}
/// The same at listed callbacks only (see FAR), far into long polygons.
fn listed_callbacks(ctx: &Ctx, sp: &Space, kinds: &[usize], prior: u32, at: &[i64]) {
    ctx.suite(&format!("callbacks around multiples of 256 and 65536: {}", sp.name), &format!("{} x error before/after {} callbacks x {} formats", sp.bound_text(), at.len(), kinds.len()), sp.cases.len() * kinds.len(), |i| format!("{:?}", sp.cases[i / kinds.len()]), |c| {
        let s = Subject::new(&sp.cases[c.index / kinds.len()], sp.fmap);
        let k = kinds[c.index % kinds.len()];
        let pin = Pinned::new(&s.coords);
        let codes = Codes::new(&s.coords, &s.offs);
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            for &at in at { for after in [0, 1] {
                let at = if at < 0 { (s.n() as i64 - 2 + at) as u32 } else { at as u32 } * 2 + after;
                c.explore(&format!("{o:?} {} fault {at}", name_of(k)), &base, sp.bound, || {
                    let r = with_kind!(k, K => {
                        let mut coll = <K as Kind<usize>>::prior(prior);
                        step::<usize, K, _>(&mut coll, Polygon::as_polygon_list(&pin.list()[0]), &codes, Mode::FailAt(at), <usize as Ix>::foreign(DELIM), false, s.fuel())
                    }).map_err(|e| format!("{}: {}", name_of(k), e.chars().take(400).collect::<String>()))?;
                    let Some(obs) = r else { return Err("does not terminate".into()) };
                    Ok(at as u64 * 2 + obs.ok as u64)
                });
                if c.ctx.stopped() { return; }
            } }
        }
    });
}
fn clashes(ctx: &Ctx, sp: &Space) {
    ctx.suite(&format!("delimiter: {}", sp.name), &format!("{} x every vertex as delimiter x prior content", sp.bound_text()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let delims: Vec<Option<u32>> = (0..s.n() as u32).map(Some).collect();
        case_all_kinds(c, &s.coords, &s.offs, &s.sizes, &sp.orders, sp.bound, &[2], &[0, 1, 2], Mode::Quiet, &delims, s.fuel(), None);
    });
}
/// Vertex sequences with repeats: crossing, touching, degenerate polygons, whose triangulation mostly fails.
fn invalid(ctx: &Ctx, name: &str, w: i64, h: i64, n: usize, bound: Bound, kinds: &[usize]) {
    let g = (w * h) as usize;
    let total = g.pow(n as u32 - 1);
    let poly = move |i: usize| -> Poly { let mut x = i; let mut p = vec![(0, 0)]; for _ in 1..n { p.push(((x % g) as i64 % w, (x % g) as i64 / w)); x /= g; } p };
    ctx.suite(name, &format!("every vertex sequence starting at a corner, {} x {} formats", bound.text(), kinds.len()), total, |i| format!("{:?}", poly(i)), |c| {
        let p = poly(c.index);
        let coords = vec![p.iter().map(|q| [Fx(q.0 as f64), Fx(q.1 as f64)]).collect::<Vec<V>>()];
        let offs = [0, n as u32];
        // duplicate vertices cannot be told apart by coordinates: de-indexed formats are compared on the first
        case_all_kinds(c, &coords, &offs, &[n], &[Order::Identity], bound, kinds, &[0, 2], Mode::Quiet, NO_DELIM, 60_000, None);
    });
}

/// Collections that already hold more than eight or sixteen bits can count.
fn large_collections(ctx: &Ctx, sizes: &'static [u32]) {
    let polys = history_polys();
    let modes = [Mode::Quiet, Mode::FailAt(0), Mode::FailAt(1), Mode::FailAt(2), Mode::FailAt(4), Mode::FailAt(6)];
    let calls = modes.len() + 3;
    let name = |i: usize| format!("{} holding {} entries", name_of(i % KINDS), sizes[i / KINDS]);
    ctx.suite("large collections", &format!("{KINDS} formats x {sizes:?} entries x every sequence of two of {calls} calls"), KINDS * sizes.len(), name, |c| {
        let (k, n) = (c.index % KINDS, sizes[c.index / KINDS]);
        let pins: Vec<Pinned> = polys.iter().map(|p| Pinned::new(p)).collect();
        for w in 0..calls * calls {
            let r: Result<u64, String> = with_kind!(k, K => {
                let mut coll = <K as Kind<usize>>::prior(n);
                let mut h = 0;
                let mut out = Ok(());
                for x in [w % calls, w / calls] {
                    let (poly, mode, delim) = match x { _ if x < modes.len() => (1, modes[x], None), _ if x == modes.len() => (0, Mode::Quiet, Some(2)), _ if x == modes.len() + 1 => (2, Mode::Quiet, None), _ => (3, Mode::Quiet, None) };
                    let list = pins[poly].list();
                    let offs = [0, list[0].len() as u32];
                    let mut codes = Codes::new(list, &offs);
                    for p in &pins { for v in &p.list()[0] { let l = codes.by_coords.len() as u32 + 500; codes.by_coords.entry((v[0].0.to_bits(), v[1].0.to_bits())).or_insert(l); } }
                    let base = base_for(ORDERS[w % ORDERS.len()], &[list[0].len()]);
                    let (r, tr, _) = with_draws(vec![], base, || step::<usize, K, _>(&mut coll, Polygon::as_polygon_list(&list[0]), &codes, mode, delim.unwrap_or(<usize as Ix>::foreign(DELIM)), false, 400_000));
                    c.count(1, 1, 1 + tr.len() as u64);
                    match r { Ok(o) => h = 2 * h + o.map_or(0, |o| o.ok as u64), Err(e) => { out = Err(e); break; } }
                }
                out.map(|_| h)
            });
            c.beat();
            match r { Ok(h) => c.outcome(h * 100 + k as u64), Err(e) => { let e: String = e.chars().take(300).collect(); c.fail("", vec![], format!("calls {} then {}: {e}", w % calls, w / calls), true); return; } }
        }
    });
}

// ---- histories

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op { Good(usize), Fault(u32), Clash, Short, Empty, Bad(usize) }
fn history_polys() -> Vec<Vec<Vec<V>>> {
    let f = |p: &[(i64, i64)]| p.iter().map(|q| [Fx(q.0 as f64), Fx(q.1 as f64)]).collect::<Vec<V>>();
    vec![
        vec![f(&[(0, 0), (4, 0), (4, 4), (0, 4)])],
        vec![f(&[(0, 0), (6, 1), (3, 2), (5, 6), (2, 3), (-1, 5)])],
        vec![f(&[(0, 0), (1, 1)])],
        vec![f(&[])],
    ]
}
fn histories(ctx: &Ctx, depth: usize) {
    let polys = history_polys();
    // invalid polygons that fail only after output has started
    let bad: Vec<Vec<Vec<V>>> = late_failures();
    let mut ops = vec![Op::Good(0), Op::Good(1), Op::Fault(0), Op::Fault(1), Op::Fault(2), Op::Fault(3), Op::Fault(5), Op::Fault(6), Op::Clash, Op::Short, Op::Empty];
    for i in 0..bad.len() { ops.push(Op::Bad(i)); }
    let total = ops.len().pow(depth as u32);
    ctx.extra.lock().unwrap().push(("late_failing_invalid_polygons".into(), bad.len().to_string()));
    let word = |mut x: usize| -> Vec<Op> { let mut v = vec![]; for _ in 0..depth { v.push(ops[x % ops.len()]); x /= ops.len(); } v };
    let all: Vec<Pinned> = polys.iter().chain(&bad).map(|p| Pinned::new(p)).collect();
    ctx.suite(&format!("histories depth {depth}"), &format!("every sequence of {depth} calls over {} operations x {KINDS} formats x prior content 0..2", ops.len()), total, |i| format!("{:?}", word(i)), |c| {
        let w = word(c.index);
        for k in 0..KINDS { for n in 0..3u32 {
            let r: Result<u64, String> = with_kind!(k, K => {
                let mut coll = <K as Kind<usize>>::prior(n);
                let mut h = 0u64;
                let mut out = Ok(());
                for (i, op) in w.iter().enumerate() {
                    c.beat();
                    let (poly, mode, delim) = match op {
                        Op::Good(g) => (*g, Mode::Quiet, None), Op::Fault(f) => (1, Mode::FailAt(*f), None), Op::Clash => (0, Mode::Quiet, Some(2)),
                        Op::Short => (2, Mode::Quiet, None), Op::Empty => (3, Mode::Quiet, None), Op::Bad(b) => (4 + b, Mode::Quiet, None),
                    };
                    let list = all[poly].list();
                    let offs = [0, list[0].len() as u32];
                    let mut codes = Codes::new(list, &offs);
                    // entries of earlier calls count as known vertices
                    for p in &all { for v in &p.list()[0] { let l = codes.by_coords.len() as u32 + 500; codes.by_coords.entry((v[0].0.to_bits(), v[1].0.to_bits())).or_insert(l); } }
                    let delim = delim.unwrap_or(<usize as Ix>::foreign(DELIM));
                    let base = base_for(ORDERS[i % ORDERS.len()], &[list[0].len()]);
                    let (r, tr, _) = with_draws(vec![], base, || step::<usize, K, _>(&mut coll, Polygon::as_polygon_list(&list[0]), &codes, mode, delim, false, 400_000));
                    c.count(0, 1, 1 + tr.len() as u64);
                    match r {
                        Err(e) => { out = Err(format!("call #{i} {op:?} into {} (prior {n}): {e}", <K as Kind<usize>>::NAME)); break; }
                        Ok(o) => {
                            let ok = o.map(|o| o.ok).unwrap_or(false);
                            let want = matches!(op, Op::Good(_)) || *op == Op::Clash && k != 2;
                            if ok != want { out = Err(format!("call #{i} {op:?} into {} (prior {n}): {}", <K as Kind<usize>>::NAME, if ok { "succeeded" } else { "failed" })); break; }
                            h = h * 2 + ok as u64;
                        }
                    }
                }
                out.map(|_| h * 100 + k as u64)
            });
            c.count(1, 0, 0);
            match r { Ok(h) => c.outcome(h), Err(e) => { c.fail("", vec![], e, true); return; } }
        } }
    });
}
/// Invalid polygons on a small grid (up to six of them) that make triangulation fail with an internal
/// error after the first callback; found by enumeration under the identity order.
fn late_failures() -> Vec<Vec<Vec<V>>> {
    let mut out = vec![];
    let g: Vec<(i64, i64)> = (0..9).map(|i| (i % 3, i / 3)).collect();
    for n in 4..=5usize { for i in 0..9usize.pow(n as u32 - 1) {
        let mut x = i; let mut p = vec![g[0]]; for _ in 1..n { p.push(g[x % 9]); x /= 9; }
        let coords: Vec<V> = p.iter().map(|q| [Fx(q.0 as f64), Fx(q.1 as f64)]).collect();
        let log = Log::new(Mode::Quiet);
        let offs = [0, n as u32];
        let (r, _, _) = with_draws(vec![], vec![], || guarded(60_000, || Polygon::triangulate(&coords, RecFan::<false>(Rec { log: &log, offs: &offs })).map_err(|e| seen(&e)).err()));
        let l = log.into_inner();
        if let Ok(Some(Seen::Internal(_))) = r { if l.ev.len() > 2 + out.len() % 2 { out.push(vec![coords]); if out.len() >= 4 { return out; } } }
    } }
    out
}

pub fn c08(ctx: &Ctx) {
    let quick = ctx.quick();
    let every: Vec<usize> = (0..KINDS).collect();
    histories(ctx, if quick { 3 } else { 4 });
    large_collections(ctx, if quick { &[4, 300, 66_000] } else { &[4, 100, 300, 33_000, 66_000] });
    for n in 3..=5 { faults(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), &[Order::Identity], if quick && n == 5 { Bound::Dev(3) } else { Bound::All }), &every, &[0, 2]); }
    faults(ctx, &Space::new("grid3x3 n=6", grid_list(3, 3, 6..=6), &[Order::Identity], Bound::Dev(if quick { 2 } else { 4 })), &every, &[1]);
    faults(ctx, &Space::new("grid4x4 n=4", grid_list(4, 4, 4..=4), &[Order::Identity], Bound::Dev(if quick { 1 } else { 4 })), &every, &[0, 1]);
    let fam = |ks: &[i64]| large_polygons(ks).into_iter().map(|x| x.1).collect::<Vec<_>>();
    faults(ctx, &Space::new("families n~12,20,40", fam(&[12, 20, 40]), &[Order::Identity, Order::EvenOdd], Bound::Dev(1)), &every, &[0, 1, 3]);
    let arr: Vec<Vec<Poly>> = arrangements(false).into_iter().map(|x| x.1).filter(|p| p.len() > 1).collect();
    faults(ctx, &Space::new("arrangements", arr.clone(), &[Order::Identity], Bound::Dev(1)), &every, &[0, 2]);
    if !quick { faults(ctx, &Space::new("families n~64", fam(&[64]), &ORDERS, Bound::Dev(1)), &every, &[0, 1, 3]); }
    let mut sp = long_space(if quick { 280 } else { 600 }, &[Order::Scrambled]);
    sp.cases.truncate(if quick { 4 } else { 12 });
    each_callback(ctx, &sp, &every, 1);
    let mut sp = long_space(70_000, &[Order::Scrambled]);
    if quick { sp.cases = sp.cases.into_iter().step_by(9).collect(); }
    listed_callbacks(ctx, &sp, &every, 1, &crate::checks::protocol::FAR);
    for n in 3..=if quick { 5 } else { 6 } { clashes(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), &[Order::Identity], Bound::All)); }
    clashes(ctx, &Space::new("families n~12,20", fam(&[12, 20]), &ORDERS, Bound::Dev(1)));
    clashes(ctx, &Space::new("families n~40", fam(&[40]), &ORDERS, Bound::Dev(0)));
    clashes(ctx, &Space::new("arrangements", arr, &[Order::Identity, Order::Stride(3)], Bound::Dev(0)));
    invalid(ctx, "invalid 3x3 n=4", 3, 3, 4, Bound::All, &every);
    invalid(ctx, "invalid 3x2 n=5", 3, 2, 5, if quick { Bound::Dev(1) } else { Bound::All }, &every);
    invalid(ctx, "invalid 3x3 n=5", 3, 3, 5, Bound::Dev(if quick { 0 } else { 2 }), &every);
    if !quick { invalid(ctx, "invalid 2x2 n=6", 2, 2, 6, Bound::Dev(3), &every); }
    invalid(ctx, "invalid 3x2 n=6", 3, 2, 6, Bound::Dev(if quick { 0 } else { 1 }), &every);
}

// ------------------------------------------------------------------ C09

fn agree(ctx: &Ctx, sp: &Space, priors: &[u32]) {
    let short = |e: String| if e.len() > 4000 { e.chars().take(400).collect() } else { e };
    ctx.suite(&sp.name, &format!("{} x {KINDS} formats x (by reference, by value) x 2 windings x {priors:?} prior entries", sp.bound_text()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let pin = Pinned::new(&s.coords);
        let codes = Codes::new(&s.coords, &s.offs);
        let mut memo: HashMap<u64, Result<(), String>> = HashMap::new();
        let mut shown = vec![];
        for o in &sp.orders { let base = base_for(*o, &s.sizes); for rev in [false, true] {
            c.explore(&format!("{o:?} rev={rev}"), &base, sp.bound, || {
                // the fans as a recording builder sees them
                let log = Log::new(Mode::Quiet);
                crate::checks::protocol::run(&s, if rev { 2 } else { 0 }, Rec { log: &log, offs: &s.offs }).map_err(|c| c.to_string())?.map_err(|e| format!("returned an error: {e:?}"))?;
                let fans = implied_fans(&log.into_inner().ev);
                let h = hash_u32s(fans.iter().flat_map(|f| f.iter().copied().chain([u32::MAX])));
                // a collection shared by the formats is a function of the fans alone: each distinct result once
                let key = h ^ rev as u64;
                if let Some(r) = memo.get(&key) { r.clone()?; return Ok(h); }
                let mut check = || -> Result<(), String> {
                    for k in 0..KINDS { for &n in priors { for by_value in [false, true] {
                        macro_rules! go { ($I:ty, $p:expr) => { with_kind!(k, K => {
                            let mut coll = <K as Kind<$I>>::prior(n);
                            let delim = <$I as Ix>::foreign(DELIM);
                            let before = <K as Kind<$I>>::norm(&coll, &codes);
                            let r: Result<bool, Seen> = flat(same_draws(|| guarded(s.fuel(), || if by_value {
                                match <K as Kind<$I>>::run_value(coll.clone(), $p, delim.clone(), rev) { Ok(x) => { coll = x; Ok(true) } Err(e) => Err(e) }
                            } else {
                                let log = Log::new(Mode::Quiet);
                                <K as Kind<$I>>::run(&mut coll, $p, &log, &s.offs, delim.clone(), rev)
                            })))?;
                            match r { Ok(true) => { } Ok(false) => return Err(format!("{}: the collection returned is not the one passed in", name_of(k))), Err(e) => return Err(format!("{}: returned {e:?}", name_of(k))) }
                            let mut want = before.clone();
                            want.extend(<K as Kind<$I>>::model(&before, &fans, delim.code(&s.offs)));
                            let got = <K as Kind<$I>>::norm(&coll, &codes);
                            if got != want { return Err(format!("{} ({}, prior {n}): got {got:?}, but the fans are {fans:?} (expected {want:?})", name_of(k), if by_value { "by value" } else { "by reference" })); }
                        }) } }
                        if s.coords.len() == 1 { go!(usize, Polygon::as_polygon_list(&pin.list()[0])) } else { go!([usize; 2], pin.list()) };
                    } } }
                    Ok(())
                };
                let r = check().map_err(short);
                memo.insert(key, r.clone());
                r?;
                shown = fans;
                Ok(h)
            });
            if c.ctx.stopped() { return; }
        } }
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?} -> fans {:?}", sp.name, sp.cases[c.index], shown)); }
    });
}
fn flat<T>(r: Result<T, Crash>) -> Result<T, String> { r.map_err(|c| c.to_string()) }

pub fn c09(ctx: &Ctx) {
    let size = if ctx.quick() { Size::Medium } else { Size::Full };
    plain_spaces(size, &mut |sp| agree(ctx, &sp, &[0, 1, 2]));
    multi_spaces(size, &mut |sp| agree(ctx, &sp, &[0, 1, 2]));
    agree(ctx, &long_space(300, &ORDERS), &[0, 1, 2]);
    agree(ctx, &long_space(600, &[Order::Scrambled]), &[0, 1, 2]);
    let arr: Vec<Vec<Poly>> = arrangements(false).into_iter().map(|x| x.1).chain(grid_list(3, 3, 3..=4)).step_by(if ctx.quick() { 8 } else { 1 }).collect();
    agree(ctx, &Space::new("large collections", arr, &[Order::Identity], Bound::Dev(0)), &[99, 300, 66_000]);
    let mut sp = long_space(70_000, &[Order::Scrambled]);
    if ctx.quick() { sp.cases = sp.cases.into_iter().step_by(7).collect(); }
    agree(ctx, &sp, if ctx.quick() { &[1] } else { &[0, 1, 2] });
}
