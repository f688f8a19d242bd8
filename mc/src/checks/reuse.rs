//! C12 a stored trapezoidation can be triangulated any number of times.

use std::cell::RefCell;

use triangulate::{formats::*, FanBuilder, FanFormat, ListFormat, Polygon, PolygonList, Trapezoidation, TriangulationError};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::explore::*;
use crate::geom::Poly;
use crate::spaces::*;
use crate::subject::*;

type Res<'p, P, FB> = Result<<<FB as FanFormat<'p, P>>::Builder as FanBuilder<'p, P>>::Output, TriangulationError<<<FB as FanFormat<'p, P>>::Builder as FanBuilder<'p, P>>::Error>>;
/// One step, or a stored trapezoidation.
pub trait Source<'p, P: PolygonList<'p> + ?Sized> { fn tri<FB: FanFormat<'p, P>>(&self, f: FB) -> Res<'p, P, FB>; }
pub struct OneStep<'p, P: ?Sized>(pub &'p P);
impl<'p, P: PolygonList<'p> + ?Sized> Source<'p, P> for OneStep<'p, P> { fn tri<FB: FanFormat<'p, P>>(&self, f: FB) -> Res<'p, P, FB> { self.0.triangulate(f) } }
impl<'p, P: PolygonList<'p> + ?Sized> Source<'p, P> for Trapezoidation<'p, P> { fn tri<FB: FanFormat<'p, P>>(&self, f: FB) -> Res<'p, P, FB> { self.triangulate(f) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Fan, FanCw, FanReversed, List, ListCw, IdxFans, DeFans, Flat, Delimited, Clash, Fail(u32), FailList(u32), Panic(u32), PanicList(u32) }
pub const OPS: [Op; 19] = [Op::Fan, Op::FanCw, Op::FanReversed, Op::List, Op::ListCw, Op::IdxFans, Op::DeFans, Op::Flat, Op::Delimited, Op::Clash,
    Op::Fail(0), Op::Fail(1), Op::Fail(2), Op::FailList(1), Op::FailList(3), Op::Panic(0), Op::Panic(1), Op::Panic(3), Op::PanicList(2)];
pub const FEW: [Op; 7] = [Op::Fan, Op::FanCw, Op::List, Op::Flat, Op::Fail(1), Op::Panic(1), Op::Panic(2)];

/// Everything a caller sees of one triangulation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seen1 { pub ev: Vec<Ev>, pub res: Result<Result<Vec<Vec<u64>>, Seen>, Crash> }

/// Values as numbers, for comparison.
pub trait Num2 { fn num(&self) -> Vec<u64>; }
impl Num2 for usize { fn num(&self) -> Vec<u64> { vec![*self as u64] } }
impl Num2 for [usize; 2] { fn num(&self) -> Vec<u64> { vec![self[0] as u64, self[1] as u64] } }
impl Num2 for V { fn num(&self) -> Vec<u64> { vec![self[0].0.to_bits(), self[1].0.to_bits()] } }

pub fn run_op<'p, P: PolygonList<'p, Vertex = V> + ?Sized, S: Source<'p, P>>(op: Op, src: &S, offs: &[u32], clash: P::Index, none: P::Index, fuel: u64) -> Seen1 where P::Index: ToId + Num2 {
    let mode = match op { Op::Fail(k) | Op::FailList(k) => Mode::FailAt(k), Op::Panic(k) | Op::PanicList(k) => Mode::PanicAt(k), _ => Mode::Quiet };
    let log: RefCell<Log> = Log::new(mode);
    let rec = Rec { log: &log, offs };
    let tok = |r: Result<Token, TriangulationError<Inj>>| r.map(|t| vec![vec![t.0]]).map_err(|e| seen(&e));
    let res = guarded(fuel, || match op {
        Op::Fan | Op::Fail(_) | Op::Panic(_) => tok(src.tri(RecFan::<false>(rec))),
        Op::FanCw => tok(src.tri(RecFan::<true>(rec))),
        Op::FanReversed => tok(src.tri(RecFan::<false>(rec).reverse_winding())),
        Op::List | Op::FailList(_) | Op::PanicList(_) => tok(src.tri(RecList::<false>(rec).into_fan_format())),
        Op::ListCw => tok(src.tri(RecList::<true>(rec).into_fan_format())),
        Op::IdxFans => src.tri(IndexedFanFormat::<P, _>::new(Vec::<Vec<P::Index>>::new())).map(|v| v.iter().map(|f| f.iter().flat_map(|i| i.num()).collect()).collect()).map_err(|e| seen_by(&e, |e| Seen::Other(e.to_string()))),
        Op::DeFans => src.tri(DeindexedFanFormat::<P, _>::new(Vec::<Vec<V>>::new()).reverse_winding()).map(|v| v.iter().map(|f| f.iter().flat_map(|i| i.num()).collect()).collect()).map_err(|e| seen_by(&e, |e| Seen::Other(e.to_string()))),
        Op::Flat => src.tri(IndexedListFormat::<P, _>::new(Vec::<P::Index>::new()).into_fan_format()).map(|v| v.iter().map(|f| f.num()).collect()).map_err(|e| seen_by(&e, |e| Seen::Other(e.to_string()))),
        Op::Delimited => src.tri(DelimitedFanFormat::<P, _>::new(Vec::<P::Index>::new(), none.clone())).map(|v| v.iter().map(|f| f.num()).collect()).map_err(|e| seen_by(&e, |e| Seen::Other(e.to_string()))),
        Op::Clash => src.tri(DelimitedFanFormat::<P, _>::new(Vec::<P::Index>::new(), clash.clone())).map(|v| v.iter().map(|f| f.num()).collect()).map_err(|e| seen_by(&e, |e| Seen::Other(e.to_string()))),
    });
    Seen1 { ev: log.into_inner().ev, res }
}

/// A word over 0..m in which every word of length `k` occurs.
fn de_bruijn(m: usize, k: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, m: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > k { if k % p == 0 { out.extend_from_slice(&a[1..=p]); } return; }
        a[t] = a[t - p];
        db(t + 1, p, m, k, a, out);
        for j in a[t - p] + 1..m { a[t] = j; db(t + 1, t, m, k, a, out); }
    }
    let mut out = vec![];
    db(1, 1, m, k, &mut vec![0; m * k + 1], &mut out);
    let head: Vec<usize> = out[..(k - 1).min(out.len())].to_vec();
    out.extend(head);
    out
}

/// Histories played on one stored trapezoidation.
#[derive(Clone, Copy, Debug)]
enum Play {
    /// A fresh trapezoidation for every pair of operations.
    Pairs,
    /// One trapezoidation, a history that contains every triple of operations.
    Triples,
    /// One trapezoidation, a history that contains every pair.
    Chain,
}

fn play<'p, P: PolygonList<'p, Vertex = V> + ?Sized>(p: &'p P, offs: &[u32], ids: (P::Index, P::Index), fuel: u64, ops: &[Op], play: Play, steps: &mut u64) -> Result<u64, String> where P::Index: ToId + Num2 {
    // the stored trapezoidation makes the draws of this execution; one-step runs repeat them
    let mk = |fresh: bool| -> Result<Trapezoidation<'p, P>, String> {
        let f = || guarded(fuel, || p.trapezoidize().map_err(|e| format!("trapezoidation fails: {e}")));
        if fresh { same_draws(f) } else { f() }.map_err(|c| c.to_string())?
    };
    let mut t = Box::new(mk(false)?);
    let drawn = rand::mc::draws();
    let want: Vec<Seen1> = ops.iter().map(|&op| same_draws(|| run_op(op, &OneStep(p), offs, ids.0.clone(), ids.1.clone(), fuel))).collect();
    let check = |t: &Trapezoidation<'p, P>, i: usize, past: &dyn Fn() -> String| -> Result<(), String> {
        let got = run_op(ops[i], t, offs, ids.0.clone(), ids.1.clone(), fuel);
        if rand::mc::draws() != drawn { return Err(format!("{:?} drew random numbers although the trapezoidation was complete", ops[i])); }
        if got != want[i] { return Err(format!("{:?} after {} gives\n{got:?}\nin one step with the same draws\n{:?}", ops[i], past(), want[i])); }
        Ok(())
    };
    let words: Vec<Vec<usize>> = match play {
        Play::Pairs => (0..ops.len()).flat_map(|i| (0..ops.len()).map(move |j| vec![i, j])).collect(),
        Play::Triples => vec![de_bruijn(ops.len(), 3)],
        Play::Chain => vec![de_bruijn(ops.len(), 2)],
    };
    for (n, w) in words.iter().enumerate() {
        if n > 0 { t = Box::new(mk(true)?); }
        for (k, &i) in w.iter().enumerate() {
            let past = || if k == 0 { "nothing".to_string() } else { format!("{:?}", w[k.saturating_sub(6)..k].iter().map(|&i| ops[i]).collect::<Vec<_>>()) };
            check(&t, i, &past)?;
            *steps += 1;
            // moving the trapezoidation must not matter either
            if k % 7 == 3 { let moved = *t; t = Box::new(moved); }
        }
    }
    Ok(hash_u32s(want.iter().flat_map(|w| implied(&w.ev)).flatten()))
}

fn histories(ctx: &Ctx, sp: &Space, ops: &'static [Op], mode: Play) {
    ctx.suite(&format!("{mode:?} of {} operations: {}", ops.len(), sp.name), &sp.bound_text(), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let single = s.coords.len() == 1;
        let mut steps = 0;
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            c.explore(&format!("{o:?}"), &base, sp.bound, || if single {
                play(Polygon::as_polygon_list(&s.coords[0]), &s.offs, (2, usize::MAX), s.fuel(), ops, mode, &mut steps)
            } else {
                play(&s.coords, &s.offs, ([0, 2], [usize::MAX; 2]), s.fuel(), ops, mode, &mut steps)
            });
            if c.ctx.stopped() { return; }
        }
        c.count(0, steps, steps);
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?}: {steps} operations on stored trapezoidations", sp.name, sp.cases[c.index])); }
    });
}

pub fn c12(ctx: &Ctx) {
    let quick = ctx.quick();
    let id: &[Order] = &[Order::Identity];
    for n in 3..=5 { histories(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), id, Bound::All), &OPS, Play::Chain); }
    histories(ctx, &Space::new("grid3x3 n=6", grid_list(3, 3, 6..=6), id, Bound::Dev(if quick { 2 } else { 5 })), &OPS, Play::Chain);
    histories(ctx, &Space::new("grid3x3 n=7..9", grid_list(3, 3, 7..=9), id, Bound::Dev(if quick { 1 } else { 2 })), &OPS, Play::Chain);
    histories(ctx, &Space::new("grid4x4 n=4..5", grid_list(4, 4, 4..=5), id, Bound::Dev(if quick { 0 } else { 1 })), &OPS, Play::Chain);
    histories(ctx, &Space::new("grid3x3 n=3..6", grid_list(3, 3, 3..=6), id, Bound::Dev(if quick { 0 } else { 1 })), &OPS, Play::Pairs);
    histories(ctx, &Space::new("grid3x3 n=3..6", grid_list(3, 3, 3..=6), id, Bound::Dev(0)), &OPS, Play::Triples);
    for n in 3..=6 { histories(ctx, &Space::new(format!("grid3x3 n={n}"), grid_list(3, 3, n..=n), id, if n < 6 || !quick { Bound::All } else { Bound::Dev(3) }), &FEW, Play::Chain); }
    let fam: Vec<Vec<Poly>> = large_polygons(&[12, 20, 40]).into_iter().map(|x| x.1).collect();
    histories(ctx, &Space::new("families n~12,20,40", fam.clone(), &ORDERS, Bound::Dev(0)), &OPS, Play::Chain);
    histories(ctx, &Space::new("families n~12,20,40", fam, &ORDERS, Bound::Dev(if quick { 0 } else { 1 })), &FEW, Play::Triples);
    let arr: Vec<Vec<Poly>> = arrangements(true).into_iter().map(|x| x.1).collect();
    histories(ctx, &Space::new("arrangements", arr.clone(), &ORDERS, Bound::Dev(if quick { 0 } else { 1 })), &OPS, Play::Chain);
    histories(ctx, &Space::new("arrangements", arr, &[Order::Identity, Order::EvenOdd], Bound::Dev(0)), &OPS, Play::Pairs);
    histories(ctx, &long_space(300, &[Order::Scrambled]), &FEW, Play::Chain);
    histories(ctx, &long_space(if quick { 2_000 } else { 20_000 }, &[Order::Scrambled]), &FEW, Play::Chain);
}
