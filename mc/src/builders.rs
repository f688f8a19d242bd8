//! Recording output formats: every callback becomes an event, every callback may be told to fail.

use std::cell::RefCell;
use std::fmt;

use triangulate::{FanBuilder, FanFormat, ListBuilder, ListFormat, PolygonList, TriangleWinding, TriangulationError};

use crate::explore::choose;
use crate::subject::{ToId, Tri};

/// The injected error; the number identifies the injection.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Inj(pub u32);
impl fmt::Display for Inj { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "injected error {}", self.0) } }
impl std::error::Error for Inj { }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// Fan format initialised, with the address of the polygon list.
    Init(usize, Tri), InitList(usize), New(Tri), Ext(u32), Add(Tri), Build,
    Fail(Seen),
    /// The preceding callback returned this error / panicked.
    Raised(u32), Panicked,
}
/// An error as a builder or caller saw it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seen { Injected(u32), NotEnoughVertices(usize), TrapInternal(String), NoVertices, Internal(String), Other(String) }

pub fn seen(e: &TriangulationError<Inj>) -> Seen { seen_by(e, |i| Seen::Injected(i.0)) }
pub fn seen_by<E: std::error::Error>(e: &TriangulationError<E>, f: impl Fn(&E) -> Seen) -> Seen {
    use triangulate::TrapezoidationError as T;
    let first = |s: String| s.lines().next().unwrap_or("").to_string();
    match e {
        TriangulationError::FanBuilder(i) => f(i),
        TriangulationError::NoVertices => Seen::NoVertices,
        TriangulationError::TrapezoidationError(T::NotEnoughVertices(n)) => Seen::NotEnoughVertices(*n),
        TriangulationError::TrapezoidationError(t) => Seen::TrapInternal(first(t.to_string())),
        TriangulationError::InternalError(_) => Seen::Internal(first(e.to_string())),
        #[allow(unreachable_patterns)]
        other => Seen::Other(first(other.to_string())),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// No callback fails.
    Quiet,
    /// Every callback may fail: a choice point each.
    Choose,
    /// The callback with this number fails / panics.
    FailAt(u32), PanicAt(u32),
}

pub struct Log { pub ev: Vec<Ev>, pub mode: Mode, pub calls: u32, pub fired: bool }
impl Log { pub fn new(mode: Mode) -> RefCell<Log> { RefCell::new(Log { ev: vec![], mode, calls: 0, fired: false }) } }

#[derive(Clone, Copy)]
pub struct Rec<'s> { pub log: &'s RefCell<Log>, pub offs: &'s [u32] }
impl<'s> Rec<'s> {
    fn step(&self, ev: Ev) -> Result<(), Inj> {
        let mut l = self.log.borrow_mut();
        l.ev.push(ev);
        let n = l.calls;
        l.calls += 1;
        match l.mode {
            Mode::Quiet => Ok(()),
            Mode::Choose => { if choose(2) == 1 { l.fired = true; l.ev.push(Ev::Raised(n)); Err(Inj(n)) } else { Ok(()) } }
            Mode::FailAt(k) => { if n == k { l.fired = true; l.ev.push(Ev::Raised(n)); Err(Inj(n)) } else { Ok(()) } }
            Mode::PanicAt(k) => { if n == k { l.fired = true; l.ev.push(Ev::Panicked); drop(l); std::panic::resume_unwind(Box::new("callback panic")) } else { Ok(()) } }
        }
    }
    fn tri<I: ToId>(&self, a: I, b: I, c: I) -> Tri { [a.id(self.offs), b.id(self.offs), c.id(self.offs)] }
    fn token(&self) -> Token { Token(0xABCD_0000 + self.log.borrow().ev.len() as u64) }
}
/// What `build` returns: identifies the call.
#[derive(Debug, PartialEq, Eq)]
pub struct Token(pub u64);

const fn winding(cw: bool) -> TriangleWinding { if cw { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise } }

pub struct RecFan<'s, const CW: bool>(pub Rec<'s>);
pub struct RecFanBuilder<'s, const CW: bool>(Rec<'s>);
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> FanFormat<'p, P> for RecFan<'s, CW> where P::Index: ToId {
    type Builder = RecFanBuilder<'s, CW>;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, Inj> {
        self.0.step(Ev::Init(p as *const P as *const () as usize, self.0.tri(a, b, c)))?;
        Ok(RecFanBuilder(self.0))
    }
}
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for RecFanBuilder<'s, CW> where P::Index: ToId {
    type Output = Token;
    type Error = Inj;
    const WINDING: TriangleWinding = winding(CW);
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Inj> { self.0.step(Ev::New(self.0.tri(a, b, c))) }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), Inj> { self.0.step(Ev::Ext(v.id(self.0.offs))) }
    fn build(self) -> Result<Token, Inj> { self.0.step(Ev::Build)?; Ok(self.0.token()) }
    fn fail(self, e: &TriangulationError<Inj>) { self.0.log.borrow_mut().ev.push(Ev::Fail(seen(e))); }
}

pub struct RecList<'s, const CW: bool>(pub Rec<'s>);
pub struct RecListBuilder<'s, const CW: bool>(Rec<'s>);
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> ListFormat<'p, P> for RecList<'s, CW> where P::Index: ToId {
    type Builder = RecListBuilder<'s, CW>;
    fn initialize(self, p: &'p P) -> Result<Self::Builder, Inj> { self.0.step(Ev::InitList(p as *const P as *const () as usize))?; Ok(RecListBuilder(self.0)) }
}
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> ListBuilder<'p, P> for RecListBuilder<'s, CW> where P::Index: ToId {
    type Output = Token;
    type Error = Inj;
    const WINDING: TriangleWinding = winding(CW);
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Inj> { self.0.step(Ev::Add(self.0.tri(a, b, c))) }
    fn build(self) -> Result<Token, Inj> { self.0.step(Ev::Build)?; Ok(self.0.token()) }
    fn fail(self, e: &TriangulationError<Inj>) { self.0.log.borrow_mut().ev.push(Ev::Fail(seen(e))); }
}

/// The triangles a sequence of callbacks stands for.
pub fn implied(ev: &[Ev]) -> Vec<Tri> {
    let (mut out, mut root, mut last) = (vec![], 0, 0);
    for e in ev { match e {
        Ev::Init(_, t) | Ev::New(t) => { out.push(*t); root = t[0]; last = t[2]; }
        Ev::Ext(v) => { out.push([root, last, *v]); last = *v; }
        Ev::Add(t) => out.push(*t),
        _ => { }
    } }
    out
}
/// The fans a sequence of callbacks stands for.
pub fn implied_fans(ev: &[Ev]) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![];
    for e in ev { match e { Ev::Init(_, t) | Ev::New(t) => out.push(t.to_vec()), Ev::Ext(v) => if let Some(f) = out.last_mut() { f.push(*v) }, _ => { } } }
    out
}

/// Protocol monitor for a successful run.
pub fn check_success(ev: &[Ev], list: bool, addr: usize, out: &Token) -> Result<(), String> {
    let bad = |i: usize, m: &str| Err(format!("callback #{i}: {m}; calls: {ev:?}"));
    for (i, e) in ev.iter().enumerate() {
        let last = i + 1 == ev.len();
        match e {
            Ev::Init(a, _) if !list => { if i != 0 { return bad(i, "initialised again"); } if *a != addr { return bad(i, "initialised with a different polygon list"); } }
            Ev::InitList(a) if list => { if i != 0 { return bad(i, "initialised again"); } if *a != addr { return bad(i, "initialised with a different polygon list"); } }
            _ if i == 0 => return bad(i, "the first callback does not initialise the format"),
            Ev::New(_) | Ev::Ext(_) if !list => { if last { return bad(i, "build is not the last callback"); } }
            Ev::Add(_) if list => { if last { return bad(i, "build is not the last callback"); } }
            Ev::Build => { if !last { return bad(i, "build is not the last callback"); } if list && ev.len() < 3 { return bad(i, "no triangle"); } }
            Ev::Fail(_) => return bad(i, "fail called during a successful run"),
            _ => return bad(i, "callback of the wrong kind"),
        }
    }
    match ev.last() { Some(Ev::Build) => { } _ => return Err(format!("build was never called: {ev:?}")) }
    if *out != Token(0xABCD_0000 + ev.len() as u64) { return Err(format!("the value returned ({out:?}) is not the one build produced")); }
    Ok(())
}

/// Protocol monitor for a run in which a callback raised error number `k`, as returned to the caller in `got`.
pub fn check_injected(ev: &[Ev], got: &Seen) -> Result<(), String> {
    let Some(i) = ev.iter().position(|e| matches!(e, Ev::Raised(_))) else { return Err("no error was raised".into()) };
    let Ev::Raised(k) = ev[i] else { unreachable!() };
    if *got != Seen::Injected(k) { return Err(format!("callback #{k} raised injected error {k}, but the caller got {got:?}; calls: {ev:?}")); }
    let consumed = matches!(ev[i - 1], Ev::Init(..) | Ev::InitList(_) | Ev::Build);
    let rest = &ev[i + 1..];
    let fails = rest.iter().filter(|e| matches!(e, Ev::Fail(_))).count();
    if rest.len() != fails { return Err(format!("callbacks continue after the error: {ev:?}")); }
    if consumed && fails > 0 { return Err(format!("fail called on a builder that does not exist (any more): {ev:?}")); }
    if !consumed && fails != 1 { return Err(format!("fail called {fails} times after the error: {ev:?}")); }
    for e in rest { if let Ev::Fail(s) = e { if *s != Seen::Injected(k) { return Err(format!("fail received {s:?} instead of injected error {k}")); } } }
    Ok(())
}

/// Any run: initialised at most once and first; on an error after initialisation exactly one fail with that error.
pub fn check_error_protocol(ev: &[Ev], got: &Seen) -> Result<(), String> {
    if ev.is_empty() { return Ok(()); }
    if !matches!(ev[0], Ev::Init(..) | Ev::InitList(_)) { return Err(format!("the first callback does not initialise the format: {ev:?}")); }
    if ev[1..].iter().any(|e| matches!(e, Ev::Init(..) | Ev::InitList(_))) { return Err(format!("initialised twice: {ev:?}")); }
    if ev.iter().any(|e| matches!(e, Ev::Build)) { return Err(format!("build called although an error was returned: {ev:?}")); }
    let fails: Vec<&Ev> = ev.iter().filter(|e| matches!(e, Ev::Fail(_))).collect();
    if fails.len() != 1 || !matches!(ev.last(), Some(Ev::Fail(_))) { return Err(format!("fail called {} times (last callback {:?}): {ev:?}", fails.len(), ev.last())); }
    if let Ev::Fail(s) = fails[0] { if s != got { return Err(format!("fail received {s:?}, the caller got {got:?}")); } }
    Ok(())
}
