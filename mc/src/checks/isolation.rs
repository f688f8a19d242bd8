//! C14 triangulations are isolated: call histories, nested calls, concurrent calls.

use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use triangulate::{FanBuilder, FanFormat, ListFormat, PolygonList, Trapezoidation, TriangleWinding, TriangulationError};

use crate::builders::*;
use crate::explore::*;
use crate::geom::*;
use crate::real_hook::*;
use crate::spaces::*;

// ------------------------------------------------------------------ input with visible steps

/// A polygon list whose every access is a visible step.
pub struct HList { verts: Vec<[Hx; 2]>, items: Vec<Option<usize>> }
impl HList {
    fn new(ps: &[Vec<(f64, f64)>]) -> HList {
        let verts = ps.iter().flatten().map(|q| [Hx(q.0), Hx(q.1)]).collect();
        let (mut items, mut k) = (vec![], 0);
        for (g, p) in ps.iter().enumerate() { if g > 0 { items.push(None); } for _ in p { items.push(Some(k)); k += 1; } }
        HList { verts, items }
    }
}
pub struct HIter<'i>(std::slice::Iter<'i, Option<usize>>);
impl<'i> Iterator for HIter<'i> { type Item = Option<usize>; fn next(&mut self) -> Option<Option<usize>> { tick(); self.0.next().copied() } }
impl<'p> PolygonList<'p> for HList {
    type Vertex = [Hx; 2];
    type Index = usize;
    type IntoItem = Option<usize>;
    type Iter<'i> = HIter<'i> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { tick(); self.verts.len() }
    fn iter_indices<'i>(&'i self) -> HIter<'i> where Self: 'i, 'p: 'i { tick(); HIter(self.items.iter()) }
    fn get_vertex<'a>(&'a self, i: usize) -> &'a [Hx; 2] where 'p: 'a { tick(); &self.verts[i] }
}
/// A format whose every callback is a visible step (before the wrapped one acts).
struct Ticking<F>(F);
impl<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for Ticking<F> {
    type Builder = Ticking<F::Builder>;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, <F::Builder as FanBuilder<'p, P>>::Error> { tick(); self.0.initialize(p, a, b, c).map(Ticking) }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: FanBuilder<'p, P>> FanBuilder<'p, P> for Ticking<B> {
    type Output = B::Output;
    type Error = B::Error;
    const WINDING: TriangleWinding = B::WINDING;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> { tick(); self.0.new_fan(a, b, c) }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), Self::Error> { tick(); self.0.extend_fan(v) }
    fn build(self) -> Result<Self::Output, Self::Error> { tick(); self.0.build() }
    fn fail(self, e: &TriangulationError<Self::Error>) { tick(); self.0.fail(e) }
}

// ------------------------------------------------------------------ tasks

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out { ev: Vec<Ev>, res: Result<Result<Token2, Seen>, Crash>, draws: usize }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Token2(u64);

/// One call: an input, the draws it gets, and how its output format behaves.
pub struct Task { name: String, list: HList, base: Vec<u32>, mode: Mode, kind: u8, offs: Vec<u32>, fuel: u64 }
impl Task {
    fn new(name: &str, ps: &[Vec<(f64, f64)>], order: Order, mode: Mode, kind: u8) -> Task {
        let sizes: Vec<usize> = ps.iter().map(|p| p.len()).collect();
        Task { name: format!("{name} {order:?} {mode:?} {}", ["fan", "fan clockwise", "list"][kind as usize]), list: HList::new(ps), base: base_for(order, &sizes), mode, kind, offs: vec![], fuel: 100_000 }
    }
    fn ints(name: &str, ps: &[Poly], order: Order, mode: Mode, kind: u8) -> Task {
        let f: Vec<Vec<(f64, f64)>> = ps.iter().map(|p| p.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()).collect();
        Task::new(name, &f, order, mode, kind)
    }
    fn on<'t>(&'t self, how: impl FnOnce(&'t HList, Rec) -> Result<Token, TriangulationError<Inj>>) -> Out {
        let log: RefCell<Log> = Log::new(self.mode);
        let (res, tr, _) = with_draws(vec![], self.base.clone(), || guarded(self.fuel, || how(&self.list, Rec { log: &log, offs: &self.offs }).map(|t| Token2(t.0)).map_err(|e| seen(&e))));
        // addresses differ from run to run
        let ev = log.into_inner().ev.into_iter().map(|e| match e { Ev::Init(_, t) => Ev::Init(0, t), Ev::InitList(_) => Ev::InitList(0), e => e }).collect();
        Out { ev, res, draws: tr.len() }
    }
    fn run(&self) -> Out {
        self.on(|l, rec| match self.kind { 0 => l.triangulate(Ticking(RecFan::<false>(rec))), 1 => l.triangulate(Ticking(RecFan::<true>(rec))), _ => l.triangulate(Ticking(RecList::<false>(rec).into_fan_format())) })
    }
    fn stored(&self, t: &Trapezoidation<HList>) -> Out {
        self.on(|_, rec| match self.kind { 0 => t.triangulate(Ticking(RecFan::<false>(rec))), 1 => t.triangulate(Ticking(RecFan::<true>(rec))), _ => t.triangulate(Ticking(RecList::<false>(rec).into_fan_format())) })
    }
    /// Steps the task takes on its own.
    fn steps(&self) -> u64 { with_action(u64::MAX, Box::new(|| { }), || self.run()).1 }
}
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap().join().expect("harness thread")) }

fn shapes() -> Vec<(&'static str, Vec<Poly>)> {
    vec![
        ("triangle", vec![vec![(0, 0), (4, 1), (1, 3)]]),
        ("square", vec![square(0, 0, 3, 3)]),
        ("arrow", vec![vec![(0, 0), (6, 0), (3, 2), (3, 6)]]),
        ("concave 6", vec![vec![(0, 0), (6, 1), (3, 2), (5, 6), (2, 3), (-1, 5)]]),
        ("ring", vec![square(0, 0, 9, 9), vec![(3, 3), (6, 4), (4, 6)]]),
        ("pair", vec![vec![(0, 0), (2, 0), (1, 2)], vec![(4, 0), (6, 1), (5, 3)]]),
    ]
}
fn valid_tasks() -> Vec<Task> {
    let mut v = vec![];
    for (i, (n, p)) in shapes().iter().enumerate() {
        v.push(Task::ints(n, p, Order::Identity, Mode::Quiet, (i % 3) as u8));
        v.push(Task::ints(n, p, Order::Stride(3), Mode::Quiet, ((i + 1) % 3) as u8));
    }
    v.push(Task::ints("comb", &[comb(4)], Order::EvenOdd, Mode::Quiet, 0));
    v
}
/// Calls that end in any other way.
fn troubled_tasks() -> Vec<Task> {
    let s = shapes();
    let mut v = vec![];
    for k in [0, 1, 3] { v.push(Task::ints("concave 6", &s[3].1, Order::Identity, Mode::FailAt(k), 0)); v.push(Task::ints("concave 6", &s[3].1, Order::Identity, Mode::PanicAt(k), (k % 2) as u8)); }
    v.push(Task::ints("ring", &s[4].1, Order::Identity, Mode::PanicAt(2), 2));
    v.push(Task::ints("ring", &s[4].1, Order::Identity, Mode::FailAt(2), 2));
    v.push(Task::ints("short", &[vec![(0, 0), (1, 1)]], Order::Identity, Mode::Quiet, 0));
    v.push(Task::ints("valid then short", &[s[1].1[0].clone(), vec![(9, 9)]], Order::Identity, Mode::Quiet, 0));
    v.push(Task::new("empty", &[vec![]], Order::Identity, Mode::Quiet, 0));
    v.push(Task::ints("bow tie", &[vec![(0, 0), (2, 2), (2, 0), (0, 2)]], Order::Identity, Mode::Quiet, 0));
    v.push(Task::ints("double edge", &[vec![(0, 0), (2, 0), (2, 2), (2, 0), (0, 2)]], Order::Identity, Mode::Quiet, 0));
    v.push(Task::new("not a number", &[vec![(0.0, 0.0), (f64::NAN, 1.0), (2.0, 2.0), (1.0, 3.0)]], Order::Identity, Mode::Quiet, 0));
    v
}

// ------------------------------------------------------------------ the checks

fn references(tasks: &[Task]) -> Vec<Out> { tasks.iter().map(|t| fresh(|| t.run())).collect() }
fn same(what: &str, t: &Task, got: &Out, want: &Out) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {} gives\n{got:?}\non its own, with the same draws:\n{want:?}", t.name)) }
}

/// Every sequence of calls in one thread; and a step-limited, thereby abandoned, call in between.
fn call_histories(ctx: &Ctx, depth: usize) {
    let tasks: Vec<Task> = valid_tasks().into_iter().chain(troubled_tasks()).collect();
    let want = references(&tasks);
    // a sequence of calls, each whole or abandoned by a panic out of a coordinate operation
    let cut = [u64::MAX, 20, 60, 150];
    let m = tasks.len() + 3;
    let ops = |i: usize| -> Vec<usize> { let mut x = i; (0..depth).map(|_| { let k = x % m; x /= m; k }).collect() };
    let name = |k: usize| if k < tasks.len() { tasks[k].name.clone() } else { format!("concave 6 abandoned after {} steps", cut[k - tasks.len() + 1]) };
    ctx.suite(&format!("call histories depth {depth}"), &format!("every sequence of {depth} of {m} calls, then two probes"), m.pow(depth as u32), |i| format!("{:?}", ops(i).iter().map(|&k| name(k)).collect::<Vec<_>>()), |c| {
        let w = ops(c.index);
        let r = fresh(|| -> Result<(), String> {
            for (n, &k) in w.iter().enumerate() {
                if k >= tasks.len() {
                    let at = cut[k - tasks.len() + 1];
                    let t = &tasks[6];
                    let _ = guarded(u64::MAX, || with_action(at, Box::new(|| std::panic::resume_unwind(Box::new("abandoned"))), || with_draws(vec![], t.base.clone(), || t.list.triangulate(Ticking(RecFan::<false>(Rec { log: &Log::new(Mode::Quiet), offs: &[] }))).is_ok())));
                    reset();
                    continue;
                }
                same(&format!("call {n} of the history"), &tasks[k], &tasks[k].run(), &want[k])?;
            }
            for k in [3, 8] { same("after the history", &tasks[k], &tasks[k].run(), &want[k])?; }
            Ok(())
        });
        c.beat();
        c.count(1, depth as u64 + 2, depth as u64 + 2);
        c.outcome(hash_u32s(w.iter().map(|&k| k as u32)));
        if let Err(e) = r { c.fail("", vec![], e, true); }
    });
}

/// Calls of very different sizes in one thread, one after the other and nested: anything kept
/// from call to call that depends on the size of the input.
fn sized_tasks() -> Vec<Task> {
    let mut v = vec![];
    let s = shapes();
    v.push(Task::ints("triangle", &s[0].1, Order::Identity, Mode::Quiet, 0));
    v.push(Task::ints("ring", &s[4].1, Order::Reverse, Mode::Quiet, 1));
    for (i, k) in [(0u8, 5i64), (1, 12), (2, 33), (0, 80)] {
        v.push(Task::ints(&format!("comb({k})"), &[comb(k)], Order::EvenOdd, Mode::Quiet, i));
        v.push(Task::ints(&format!("lens({})", 2 * k), &[lens(2 * k)], Order::Scrambled, Mode::Quiet, (i + 1) % 3));
    }
    v.push(Task::ints("many triangles", &(0..40).map(|i| vec![(4 * i, i), (4 * i + 2, i + 1), (4 * i + 1, i + 3)]).collect::<Vec<_>>(), Order::Scrambled, Mode::Quiet, 0));
    v.push(Task::ints("comb(40)", &[comb(40)], Order::EvenOdd, Mode::FailAt(50), 0));
    v.push(Task::ints("comb(40)", &[comb(40)], Order::EvenOdd, Mode::PanicAt(90), 1));
    v.push(Task::ints("long then short", &[comb(30), vec![(900, 900), (901, 901)]], Order::Identity, Mode::Quiet, 0));
    for t in &mut v { t.fuel = crate::subject::fuel_for(t.list.verts.len()); }
    v
}
fn size_histories(ctx: &Ctx, depth: usize) {
    let tasks = sized_tasks();
    let want = references(&tasks);
    let m = tasks.len();
    let ops = |i: usize| -> Vec<usize> { let mut x = i; (0..depth).map(|_| { let k = x % m; x /= m; k }).collect() };
    ctx.suite(&format!("call histories of different sizes, depth {depth}"), &format!("every sequence of {depth} of {m} calls on 3 to 320 vertices"), m.pow(depth as u32), |i| format!("{:?}", ops(i).iter().map(|&k| &tasks[k].name).collect::<Vec<_>>()), |c| {
        let w = ops(c.index);
        let r = fresh(|| -> Result<(), String> { for (n, &k) in w.iter().enumerate() { same(&format!("call {n} of the history"), &tasks[k], &tasks[k].run(), &want[k])?; } Ok(()) });
        c.beat();
        c.count(1, depth as u64, depth as u64);
        c.outcome(hash_u32s(w.iter().map(|&k| k as u32)));
        if let Err(e) = r { c.fail("", vec![], e, true); }
    });
}

/// Polygons of one layout in one place in memory: overwritten between the calls, or released and
/// made again, so that nothing but the coordinates tells one input from the next.
fn reused_memory(ctx: &Ctx, depth: usize) {
    let layouts: Vec<Vec<Vec<Poly>>> = vec![
        vec![vec![vec![(0, 0), (4, 1), (1, 3)]], vec![vec![(1, 3), (4, 1), (0, 0)]], vec![vec![(0, 3), (4, 1), (1, -3)]], vec![vec![(40, 40), (44, 41), (41, 43)]]],
        vec![vec![square(0, 0, 3, 3)], vec![vec![(0, 0), (6, 0), (3, 2), (3, 6)]], vec![vec![(3, 6), (3, 2), (6, 0), (0, 0)]], vec![vec![(0, 0), (3, 0), (6, 0), (3, 5)]], vec![vec![(0, 0), (3, 4), (6, 0), (3, 1)]], vec![vec![(0, 0), (2, 2), (2, 0), (0, 2)]]],
        vec![vec![vec![(0, 0), (6, 1), (3, 2), (5, 6), (2, 3), (-1, 5)]], vec![vec![(-1, 5), (2, 3), (5, 6), (3, 2), (6, 1), (0, 0)]], vec![vec![(0, 0), (4, -1), (6, 2), (5, 6), (1, 7), (-2, 3)]], vec![vec![(0, 0), (2, 0), (4, 0), (4, 4), (2, 4), (0, 4)]]],
        vec![vec![square(0, 0, 9, 9), vec![(3, 3), (6, 4), (4, 6)]], vec![square(0, 0, 9, 9), vec![(13, 3), (16, 4), (14, 6)]], vec![square(4, 4, 1, 1), vec![(-9, -9), (19, -9), (4, 19)]], vec![vec![(9, 9), (9, 0), (0, 0), (0, 9)], vec![(3, 3), (4, 6), (6, 4)]]],
    ];
    let how = ["overwritten", "released and made again", "overwritten, stored trapezoidations"];
    let cases: Vec<(usize, usize, usize)> = layouts.iter().enumerate().flat_map(|(l, v)| (0..v.len().pow(depth as u32)).flat_map(move |i| (0..3).map(move |h| (l, i, h)))).collect();
    let word = |&(l, i, _): &(usize, usize, usize)| -> Vec<usize> { let m = layouts[l].len(); let mut x = i; (0..depth).map(|_| { let k = x % m; x /= m; k }).collect() };
    let want: Vec<Vec<Out>> = layouts.iter().map(|v| references(&v.iter().map(|p| Task::ints("", p, Order::Identity, Mode::Quiet, 0)).collect::<Vec<_>>())).collect();
    ctx.suite(&format!("one place in memory, depth {depth}"), &format!("every sequence of {depth} inputs of one layout in the same memory x overwritten, released and made again, stored"), cases.len(), |i| format!("{}: {:?}", how[cases[i].2], word(&cases[i]).iter().map(|&k| &layouts[cases[i].0][k]).collect::<Vec<_>>()), |c| {
        let case = cases[c.index];
        let w = word(&case);
        let v = &layouts[case.0];
        let r = fresh(|| -> Result<(), String> {
            let mut t = Task::ints("input", &v[w[0]], Order::Identity, Mode::Quiet, 0);
            for (n, &k) in w.iter().enumerate() {
                if case.2 == 1 { drop(t); t = Task::ints("input", &v[k], Order::Identity, Mode::Quiet, 0); }
                else { for (to, q) in t.list.verts.iter_mut().zip(v[k].iter().flatten()) { *to = [Hx(q.0 as f64), Hx(q.1 as f64)]; } }
                let got = if case.2 == 2 {
                    let (tz, tr, _) = with_draws(vec![], t.base.clone(), || guarded(t.fuel, || t.list.trapezoidize()));
                    match tz { Ok(Ok(tz)) => { let mut o = t.stored(&tz); o.draws = tr.len(); o } _ => t.run() }
                } else { t.run() };
                same(&format!("input {n} of {:?}", w.iter().map(|&k| &v[k]).collect::<Vec<_>>()), &t, &got, &want[case.0][k])?;
            }
            Ok(())
        });
        c.beat();
        c.count(1, depth as u64, depth as u64);
        c.outcome(c.index as u64);
        if let Err(e) = r { c.fail("", vec![], e, true); }
    });
}

/// The same call many times over, then every other one: counters and pools that run out.
fn repetitions(ctx: &Ctx, times: usize) {
    let tasks: Vec<Task> = valid_tasks().into_iter().chain(troubled_tasks()).collect();
    let want = references(&tasks);
    let n = tasks.len();
    ctx.suite("repetitions", &format!("every call {times} times in one thread, every result compared, then every other call"), n, |i| tasks[i].name.clone(), |c| {
        let i = c.index;
        let (cx, id) = (c.ctx, c.worker_id());
        let beat = || cx.beat_of(id);
        let r = fresh(|| -> Result<(), String> {
            for k in 0..times { same(&format!("repetition {k}"), &tasks[i], &tasks[i].run(), &want[i])?; if k % 64 == 0 { beat(); } }
            for j in 0..n { same(&format!("after {times} x {}", tasks[i].name), &tasks[j], &tasks[j].run(), &want[j])?; }
            Ok(())
        });
        c.count(1, (times + n) as u64, (times + n) as u64);
        c.outcome(i as u64);
        if let Err(e) = r { c.fail("", vec![], e, true); }
    });
    let stored: Vec<usize> = (0..valid_tasks().len()).collect();
    ctx.suite("repeated triangulation of one trapezoidation", &format!("{times} times, every result compared"), stored.len(), |i| tasks[i].name.clone(), |c| {
        let (t, ix) = (&tasks[c.index], c.index);
        let (cx, id) = (c.ctx, c.worker_id());
        let beat = || cx.beat_of(id);
        let r = fresh(|| -> Result<(), String> {
            let (tz, _, _) = with_draws(vec![], t.base.clone(), || t.list.trapezoidize());
            let tz = tz.map_err(|e| format!("trapezoidation fails: {e}"))?;
            for k in 0..times {
                let mut o = t.stored(&tz);
                o.draws = want[ix].draws;
                same(&format!("repetition {k}"), t, &o, &want[ix])?;
                if k % 64 == 0 { beat(); }
            }
            Ok(())
        });
        c.count(1, times as u64, times as u64);
        c.outcome(c.index as u64);
        if let Err(e) = r { c.fail("", vec![], e, true); }
    });
}

/// Calls inside calls inside calls.
fn nest(chain: &'static [(usize, u64)], tasks: &'static [Task], want: &'static [Out], bad: &'static Mutex<Option<String>>) {
    let (k, at) = chain[0];
    let rest = &chain[1..];
    let (out, _) = with_action(at, Box::new(move || if !rest.is_empty() { nest(rest, tasks, want, bad) }), || tasks[k].run());
    if let Err(e) = same(&format!("{} levels below the top", bad_depth(rest)), &tasks[k], &out, &want[k]) { bad.lock().unwrap().get_or_insert(e); }
}
fn bad_depth(rest: &[(usize, u64)]) -> String { format!("with {} further calls nested inside,", rest.len()) }
fn deep_nests(ctx: &Ctx, quick: bool) {
    let tasks: &'static [Task] = Box::leak(valid_tasks().into_iter().chain(troubled_tasks()).collect::<Vec<_>>().into_boxed_slice());
    let want: &'static [Out] = Box::leak(references(tasks).into_boxed_slice());
    let steps: Vec<u64> = tasks.iter().map(|t| fresh(|| t.steps())).collect();
    // the same call inside itself, at every step, to every depth
    let depths = [2usize, 3, 4, 6, 10, 24, 140, 300];
    let n = tasks.len();
    ctx.suite("calls nested in themselves", "every call at every visible step of itself, at the same step of that one, and so on, 2 to 24 deep, and 140 and 300 deep at a few steps", n * depths.len(), |i| format!("{} x {}", tasks[i / depths.len()].name, depths[i % depths.len()]), |c| {
        let (k, d) = (c.index / depths.len(), depths[c.index % depths.len()]);
        let stride = if d > 24 { (steps[k] / if quick { 7 } else { 50 }).max(1) } else if quick && d > 4 { 3 } else { 1 };
        let mut at = 0;
        while at < steps[k] {
            let bad: &'static Mutex<Option<String>> = Box::leak(Box::default());
            let chain: &'static [(usize, u64)] = Box::leak(vec![(k, at); d].into_boxed_slice());
            fresh(|| nest(chain, tasks, want, bad));
            c.beat();
            c.count(1, d as u64, d as u64);
            if let Some(e) = bad.lock().unwrap().take() { c.fail("", vec![], format!("at step {at}: {e}"), true); return; }
            at += stride;
        }
        c.outcome(c.index as u64);
    });
    // three different calls, inside each other at the callbacks' and a few other steps
    let picks = [0usize, 2, 5, 9, n - 9, n - 6, n - 3];
    let p = picks.len();
    let fr = if quick { 5u64 } else { 12 };
    ctx.suite("three calls nested in each other", &format!("every triple of {p} calls x {fr} x {fr} positions"), p * p * p, |i| format!("{} > {} > {}", tasks[picks[i / p / p]].name, tasks[picks[i / p % p]].name, tasks[picks[i % p]].name), |c| {
        let (x, y, z) = (picks[c.index / p / p], picks[c.index / p % p], picks[c.index % p]);
        for a in 0..fr { for b in 0..fr {
            let bad: &'static Mutex<Option<String>> = Box::leak(Box::default());
            let chain: &'static [(usize, u64)] = Box::leak(vec![(x, steps[x] * (2 * a + 1) / (2 * fr)), (y, steps[y] * (2 * b + 1) / (2 * fr)), (z, 0)].into_boxed_slice());
            fresh(|| nest(chain, tasks, want, bad));
            c.beat();
            c.count(1, 3, 3);
            if let Some(e) = bad.lock().unwrap().take() { c.fail("", vec![], format!("{chain:?}: {e}"), true); return; }
        } }
        c.outcome(c.index as u64);
    });
}

/// A call at every visible step of another call.
fn nested(ctx: &Ctx, quick: bool) {
    let outer = valid_tasks();
    let inner: Vec<Task> = valid_tasks().into_iter().chain(troubled_tasks()).collect();
    let (wo, wi) = (references(&outer), references(&inner));
    let inner: &'static Vec<Task> = Box::leak(Box::new(inner));
    let total = outer.len() * inner.len();
    let _ = quick;
    ctx.suite("nested calls", "every call at every visible step (coordinate operation, vertex access, iteration, callback) of every call", total, |i| format!("{} inside {}", inner[i % inner.len()].name, outer[i / inner.len()].name), |c| {
        let (o, i) = (&outer[c.index / inner.len()], &inner[c.index % inner.len()]);
        let (wo, wi) = (&wo[c.index / inner.len()], &wi[c.index % inner.len()]);
        let only = match &ctx.only { Some(Only { exec: Some((t, _, a)), .. }) if t == "at" => a.first().map(|x| *x as u64), _ => None };
        let mut at = only.unwrap_or(0);
        loop {
            let (r, steps) = fresh(|| {
                let got: &'static Mutex<Option<Out>> = Box::leak(Box::new(Mutex::new(None)));
                let (out, steps) = with_action(at, Box::new(move || { let r = i_static(i).run(); *got.lock().unwrap() = Some(r); }), || o.run());
                let g = got.lock().unwrap().take();
                // the leaked cell is a few bytes per step
                let mut r = same("with a call inside", o, &out, wo);
                if let Some(g) = g { if r.is_ok() { r = same("as the inner call", i, &g, wi); } }
                if r.is_ok() { r = same("afterwards", i, &i.run(), wi); }
                (r, steps)
            });
            c.beat();
            c.count(1, 1, 2);
            c.outcome(at);
            if let Err(e) = r { c.fail("at", vec![at as u32], format!("at step {at}: {e}"), true); return; }
            at += 1;
            if at >= steps || only.is_some() || ctx.stopped() { break; }
        }
    });
}
fn i_static(t: &Task) -> &'static Task { unsafe { &*(t as *const Task) } }

/// The same stored trapezoidation triangulated from inside its own callbacks.
fn nested_stored(ctx: &Ctx) {
    let tasks = valid_tasks();
    let want = references(&tasks);
    ctx.suite("nested calls on one stored trapezoidation", "at every visible step of a triangulation of it", tasks.len() * 3, |i| format!("{} / {}", tasks[i / 3].name, i % 3), |c| {
        let t = &tasks[c.index / 3];
        let again = Task { name: t.name.clone(), list: HList { verts: t.list.verts.clone(), items: t.list.items.clone() }, base: t.base.clone(), mode: [Mode::Quiet, Mode::FailAt(1), Mode::PanicAt(1)][c.index % 3], kind: t.kind, offs: vec![], fuel: t.fuel };
        let w2 = fresh(|| again.run());
        let r = fresh(|| -> Result<u64, String> {
            let (tz, _, _) = with_draws(vec![], t.base.clone(), || t.list.trapezoidize());
            let tz = tz.map_err(|e| format!("trapezoidation fails: {e}"))?;
            let strip = |mut o: Out, w: &Out| { o.draws = w.draws; o };
            let mut at = 0;
            loop {
                let got: &'static Mutex<Option<Out>> = Box::leak(Box::new(Mutex::new(None)));
                let (p, q) = (&tz as *const Trapezoidation<HList> as usize, &again as *const Task as usize);
                let (out, steps) = with_action(at, Box::new(move || { let (tz, again) = unsafe { (&*(p as *const Trapezoidation<HList>), &*(q as *const Task)) }; *got.lock().unwrap() = Some(again.stored(tz)); }), || t.stored(&tz));
                same(&format!("at step {at}, with a call inside"), t, &strip(out, &want[c.index / 3]), &want[c.index / 3])?;
                if let Some(g) = got.lock().unwrap().take() { same(&format!("at step {at}, as the inner call"), &again, &strip(g, &w2), &w2)?; }
                at += 1;
                if at >= steps { return Ok(at); }
            }
        });
        c.beat();
        match r { Ok(n) => { c.count(n, n, 2 * n); c.outcome(n); } Err(e) => c.fail("", vec![], e, true) }
    });
}

// ------------------------------------------------------------------ two threads

/// Cooperative scheduler for two threads: exactly one runs, and the plan says at which of its steps
/// a thread hands over. A thread that makes no step for a while (it waits for something the other
/// one holds) loses its turn, so locks in the code under test cannot deadlock the exploration.
#[derive(Default)]
pub struct Sched { turn: AtomicUsize, steps: [AtomicU64; 2], done: [AtomicBool; 2], at: AtomicUsize, plan: Mutex<Vec<(usize, u64)>>, blocked: AtomicU64, next: [AtomicU64; 2] }
impl Sched {
    fn start(&self, plan: &[(usize, u64)]) {
        *self.plan.lock().unwrap() = plan.to_vec();
        self.at.store(0, SeqCst);
        for t in 0..2 { self.steps[t].store(0, SeqCst); self.done[t].store(false, SeqCst); }
        self.load();
        self.turn.store(0, SeqCst);
    }
    /// The step of each thread at which it has to look at the plan.
    fn load(&self) {
        let p = self.plan.lock().unwrap();
        let n = p.get(self.at.load(SeqCst)).copied();
        for t in 0..2 { self.next[t].store(match n { Some((x, s)) if x == t => s, _ => u64::MAX }, SeqCst); }
    }
    pub fn point(&self, me: usize) {
        let s = self.steps[me].fetch_add(1, SeqCst);
        if self.turn.load(SeqCst) != me { self.wait(me); }
        if s == self.next[me].load(SeqCst) {
            self.at.fetch_add(1, SeqCst);
            self.load();
            if !self.done[1 - me].load(SeqCst) { self.turn.store(1 - me, SeqCst); self.wait(me); }
        }
    }
    fn wait(&self, me: usize) {
        let mut n = 0u32;
        let mut seen = (self.steps[1 - me].load(SeqCst), Instant::now());
        loop {
            if self.turn.load(SeqCst) == me { return; }
            n += 1;
            if n < 300 { std::hint::spin_loop(); continue; }
            std::thread::yield_now();
            if n % 64 == 0 {
                let s = self.steps[1 - me].load(SeqCst);
                if s != seen.0 { seen = (s, Instant::now()); }
                else if seen.1.elapsed() > Duration::from_millis(300) {
                    self.blocked.fetch_add(1, SeqCst);
                    self.turn.store(me, SeqCst);
                    return;
                }
            }
        }
    }
    fn finish(&self, me: usize) { self.done[me].store(true, SeqCst); self.turn.store(1 - me, SeqCst); }
}

/// Runs `a` in this thread and `b` in a helper under every schedule with at most `preemptions`
/// (one: hand-over at every step of `a`; two: and back at every step of `b`).
fn interleave(c: &mut Case, tag: &str, a: &(dyn Fn() -> Out + Sync), b: &(dyn Fn() -> Out + Sync), wa: &Out, wb: &Out, la: u64, lb: u64, preemptions: u32, names: (&str, &str)) {
    let sched: &'static Sched = Box::leak(Box::default());
    let go = AtomicU64::new(0);
    let out_b: Mutex<Option<Out>> = Mutex::new(None);
    let ready = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let ctx = c.ctx;
    let only: Option<Vec<u32>> = match &ctx.only { Some(Only { exec: Some((t, _, a)), .. }) => if t == tag { Some(a.clone()) } else { return }, _ => None };
    let failure: Option<(Vec<u32>, String)> = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || {
            let mut epoch = 0;
            loop {
                let mut n = 0;
                while go.load(SeqCst) == epoch { if stop.load(SeqCst) { return; } n += 1; if n < 300 { std::hint::spin_loop() } else { std::thread::yield_now() } }
                epoch += 1;
                let r = with_sched(sched, 1, || { if sched.turn.load(SeqCst) != 1 { sched.wait(1); } let r = b(); sched.finish(1); r });
                *out_b.lock().unwrap() = Some(r);
                ready.store(epoch, SeqCst);
            }
        }).unwrap();
        let mut epoch = 0;
        let mut one = |plan: &[(usize, u64)]| -> Result<(), String> {
            sched.start(plan);
            epoch += 1;
            go.store(epoch, SeqCst);
            let ra = with_sched(sched, 0, || { let r = a(); sched.finish(0); r });
            let mut n = 0;
            while ready.load(SeqCst) != epoch { n += 1; if n < 300 { std::hint::spin_loop() } else { std::thread::yield_now() } }
            let rb = out_b.lock().unwrap().take().unwrap();
            if ra != *wa { return Err(format!("{} gives\n{ra:?}\non its own, with the same draws:\n{wa:?}", names.0)); }
            if rb != *wb { return Err(format!("{} gives\n{rb:?}\non its own, with the same draws:\n{wb:?}", names.1)); }
            Ok(())
        };
        let mut run = || -> Option<(Vec<u32>, String)> {
            if let Some(o) = &only {
                let plan: Vec<(usize, u64)> = o.iter().enumerate().map(|(k, s)| (k % 2, *s as u64)).collect();
                return one(&plan).err().map(|e| (o.clone(), e));
            }
            for i in 0..la {
                let js: u64 = if preemptions < 2 { 1 } else { lb + 1 };
                for j in 0..js {
                    let plan: Vec<(usize, u64)> = if j == 0 { vec![(0, i)] } else { vec![(0, i), (1, j - 1)] };
                    let key: Vec<u32> = plan.iter().map(|p| p.1 as u32).collect();
                    if let Err(e) = one(&plan) { return Some((key, e)); }
                    c.beat();
                    c.count(1, 1, 1 + key.len() as u64);
                    if ctx.stopped() { return None; }
                    // code that waits inside: every such schedule costs a timeout, a few of them suffice
                    if sched.blocked.load(SeqCst) > 40 { ctx.extra.lock().unwrap().push(("schedules_cut_short_by_blocking".into(), esc(tag))); return None; }
                }
            }
            None
        };
        let f = run();
        stop.store(true, SeqCst);
        f
    });
    if let Some((key, e)) = failure { c.fail(tag, key.clone(), format!("hand-over at steps {key:?} (thread 0, thread 1): {e}"), true); }
}

fn concurrent(ctx: &Ctx, quick: bool) {
    let tasks: Vec<Task> = valid_tasks().into_iter().chain(troubled_tasks()).collect();
    let want = references(&tasks);
    let steps: Vec<u64> = tasks.iter().map(|t| fresh(|| t.steps())).collect();
    let n = tasks.len();
    ctx.suite("two threads, one preemption", "every ordered pair of calls x hand-over at every visible step of the first", n * n, |i| format!("{} | {}", tasks[i / n].name, tasks[i % n].name), |c| {
        let (i, j) = (c.index / n, c.index % n);
        if steps[i] > 5000 { return; }
        interleave(c, "one", &|| tasks[i].run(), &|| tasks[j].run(), &want[i], &want[j], steps[i], steps[j], 1, (&tasks[i].name, &tasks[j].name));
        c.outcome(c.index as u64);
        if c.index == 14 { c.ctx.sample(|| format!("{} ({} steps) | {} ({} steps)", tasks[i].name, steps[i], tasks[j].name, steps[j])); }
    });
    // two preemptions: the shorter calls
    let limit = if quick { 220 } else { 700 };
    let short: Vec<usize> = (0..n).filter(|&i| steps[i] <= limit).collect();
    ctx.extra.lock().unwrap().push(("calls_explored_with_two_preemptions".into(), short.len().to_string()));
    let m = short.len();
    ctx.suite("two threads, two preemptions", &format!("every ordered pair of the calls of at most {limit} steps x every pair of hand-over points"), m * m, |i| format!("{} | {}", tasks[short[i / m]].name, tasks[short[i % m]].name), |c| {
        let (i, j) = (short[c.index / m], short[c.index % m]);
        interleave(c, "two", &|| tasks[i].run(), &|| tasks[j].run(), &want[i], &want[j], steps[i], steps[j], 2, (&tasks[i].name, &tasks[j].name));
        c.outcome(c.index as u64);
    });
}

// ---- one trapezoidation, two threads

struct Probe<T>(PhantomData<T>);
trait Unknown { fn shareable(&self) -> bool { false } }
impl<T> Unknown for &Probe<T> { }
impl<T: Sync> Probe<T> { fn shareable(&self) -> bool { true } }
/// Lets the exploration run (and the harness compile) even if the trapezoidation cannot be shared.
struct Share<'t>(&'t Trapezoidation<'t, HList>);
unsafe impl<'t> Sync for Share<'t> { }
unsafe impl<'t> Send for Share<'t> { }

fn shared(ctx: &Ctx, quick: bool) {
    ctx.suite("trapezoidations can be shared", "Trapezoidation<..>: Sync for shareable polygons", 1, |_| "Trapezoidation: Sync".into(), |c| {
        c.count(1, 1, 1);
        c.outcome(1);
        if !(&Probe::<Trapezoidation<'static, HList>>(PhantomData)).shareable() { c.fail("", vec![], "a stored trapezoidation of shareable polygons cannot be shared between threads (not Sync)".into(), true); }
    });
    let inputs: Vec<(&str, Vec<Poly>, Order)> = { let mut v = vec![]; for (n, p) in shapes() { v.push((n, p.clone(), Order::Identity)); v.push((n, p, Order::EvenOdd)); } v.push(("comb", vec![comb(4)], Order::EvenOdd)); v };
    let ways: Vec<(Mode, u8)> = vec![(Mode::Quiet, 0), (Mode::Quiet, 1), (Mode::Quiet, 2), (Mode::FailAt(1), 0), (Mode::PanicAt(1), 0)];
    let m = ways.len();
    ctx.suite("one trapezoidation, two threads", "every pair of ways to triangulate it x every schedule with at most two preemptions (one for the larger ones)", inputs.len() * m * m, |i| format!("{} {:?}: {:?} | {:?}", inputs[i / m / m].0, inputs[i / m / m].2, ways[i / m % m], ways[i % m]), |c| {
        let (name, ps, order) = &inputs[c.index / m / m];
        let (wa, wb) = (ways[c.index / m % m], ways[c.index % m]);
        let (ta, tb) = (Task::ints(name, ps, *order, wa.0, wa.1), Task::ints(name, ps, *order, wb.0, wb.1));
        let (ra, rb) = (fresh(|| ta.run()), fresh(|| tb.run()));
        let (tz, _, _) = with_draws(vec![], ta.base.clone(), || ta.list.trapezoidize());
        let Ok(tz) = tz else { c.fail("", vec![], "trapezoidation fails".into(), true); return };
        let (_, la) = with_action(u64::MAX, Box::new(|| { }), || ta.stored(&tz));
        let (_, lb) = with_action(u64::MAX, Box::new(|| { }), || tb.stored(&tz));
        let share = Share(&tz);
        let share = &share;
        let strip = |mut o: Out, w: &Out| { o.draws = w.draws; o };
        let two = la * lb <= if quick { 4_000 } else { 60_000 };
        interleave(c, "shared", &|| { let s: &Share = share; strip(ta.stored(s.0), &ra) }, &|| { let s: &Share = share; strip(tb.stored(s.0), &rb) }, &ra, &rb, la, lb, if two { 2 } else { 1 }, (&ta.name, &tb.name));
        c.outcome(c.index as u64);
    });
}

/// Forgets a planned action that did not happen.
fn reset() { clear(); }

pub fn c14(ctx: &Ctx) {
    let quick = ctx.quick();
    call_histories(ctx, 2);
    call_histories(ctx, 3);
    size_histories(ctx, if quick { 2 } else { 3 });
    reused_memory(ctx, if quick { 3 } else { 5 });
    repetitions(ctx, if quick { 66_000 } else { 200_000 });
    deep_nests(ctx, quick);
    nested(ctx, quick);
    nested_stored(ctx);
    shared(ctx, quick);
    concurrent(ctx, quick);
}
