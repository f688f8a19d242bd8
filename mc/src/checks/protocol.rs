//! C06 builder protocol on success, C07 builder errors.

use std::collections::HashMap;

use triangulate::{FanFormat, ListFormat, Polygon};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::explore::*;
use crate::subject::*;
use crate::spaces::*;
use crate::geom::Poly;

pub const CONFIGS: [&str; 7] = ["fan", "fan clockwise", "fan reversed", "list", "list clockwise", "list reversed", "fan reversed twice"];
fn is_list(k: usize) -> bool { (3..6).contains(&k) }

/// One triangulation into recording configuration `k`.
pub fn run(s: &Subject, k: usize, rec: Rec) -> Result<Result<Token, Seen>, Crash> {
    macro_rules! go { ($p:expr) => { {
        use triangulate::PolygonList as _;
        let p = $p;
        let r = match k {
            0 => p.triangulate(RecFan::<false>(rec)),
            1 => p.triangulate(RecFan::<true>(rec)),
            2 => p.triangulate(RecFan::<false>(rec).reverse_winding()),
            3 => p.triangulate(RecList::<false>(rec).into_fan_format()),
            4 => p.triangulate(RecList::<true>(rec).into_fan_format()),
            5 => p.triangulate(RecList::<false>(rec).into_fan_format().reverse_winding()),
            _ => p.triangulate(RecFan::<false>(rec).reverse_winding().reverse_winding()),
        };
        r.map_err(|e| seen(&e))
    } } }
    guarded(s.fuel(), || if s.coords.len() == 1 { go!(Polygon::as_polygon_list(&s.coords[0])) } else { go!(&s.coords) })
}
pub fn addr(s: &Subject) -> usize { if s.coords.len() == 1 { &s.coords[0] as *const Vec<V> as *const () as usize } else { &s.coords as *const Vec<Vec<V>> as *const () as usize } }

fn sweep(ctx: &Ctx, sp: &Space, configs: &[usize], mode: Mode, oracle: impl Fn(&Subject, usize, &[Ev], &Result<Token, Seen>, &mut HashMap<u64, Result<(), String>>) -> Result<(), String> + Sync) {
    let what = if mode == Mode::Choose { " x error at every callback" } else { "" };
    ctx.suite(&sp.name, &format!("{} x {} builders{what}", sp.bound_text(), configs.len()), sp.cases.len(), |i| format!("{:?}", sp.cases[i]), |c| {
        let s = Subject::new(&sp.cases[c.index], sp.fmap);
        let mut memo = HashMap::new();
        let mut last = vec![];
        for o in &sp.orders { for &k in configs {
            let base = base_for(*o, &s.sizes);
            c.explore(&format!("{o:?} {}", CONFIGS[k]), &base, sp.bound, || {
                let log = Log::new(mode);
                let r = run(&s, k, Rec { log: &log, offs: &s.offs }).map_err(|c| format!("{}: {c}", CONFIGS[k]))?;
                let l = log.into_inner();
                oracle(&s, k, &l.ev, &r, &mut memo).map_err(|e| format!("{}: {e}", CONFIGS[k]))?;
                let h = hash_u32s(implied(&l.ev).into_iter().flatten()) ^ l.ev.len() as u64;
                last = l.ev;
                Ok(h)
            });
            if c.ctx.stopped() { return; }
        } }
        if c.index == sp.cases.len() / 2 { c.ctx.sample(|| format!("{}: {:?} -> {:?}", sp.name, sp.cases[c.index], last)); }
    });
}

fn success(s: &Subject, k: usize, ev: &[Ev], r: &Result<Token, Seen>, memo: &mut HashMap<u64, Result<(), String>>) -> Result<(), String> {
    match r {
        Err(e) => Err(format!("returned an error: {e:?}")),
        Ok(t) => {
            check_success(ev, is_list(k), addr(s), t)?;
            let tris = implied(ev);
            memo.entry(hash_tris(&tris)).or_insert_with(|| { let mut sc = Scratch::default(); s.check_tiling(&tris, &mut sc)?; s.check_conforming(&tris) }).clone()
        }
    }
}

pub fn c06(ctx: &Ctx) {
    let all = [0, 1, 2, 3, 4, 5, 6];
    let size = if ctx.quick() { Size::Medium } else { Size::Full };
    plain_spaces(size, &mut |sp| sweep(ctx, &sp, &all, Mode::Quiet, success));
    multi_spaces(size, &mut |sp| sweep(ctx, &sp, &all, Mode::Quiet, success));
    for n in [300, 600] { sweep(ctx, &long_space(n, &ORDERS), &all, Mode::Quiet, success); }
    sweep(ctx, &long_space(70_000, &[Order::Scrambled]), &all, Mode::Quiet, success);
}

/// One run per listed callback and builder, that callback fails; -k is the k-th from the end.
fn listed_callbacks(ctx: &Ctx, sp: &Space, configs: &[usize], at: &[i64], oracle: impl Fn(&Subject, usize, &[Ev], &Result<Token, Seen>, &mut HashMap<u64, Result<(), String>>) -> Result<(), String> + Sync) {
    ctx.suite(&format!("callbacks around multiples of 256 and 65536: {}", sp.name), &format!("{} x {} builders x error at {} callbacks", sp.bound_text(), configs.len(), at.len()), sp.cases.len() * configs.len(), |i| format!("{:?}", sp.cases[i / configs.len()]), |c| {
        let s = Subject::new(&sp.cases[c.index / configs.len()], sp.fmap);
        let k = configs[c.index % configs.len()];
        let mut memo = HashMap::new();
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            // number of callbacks of a run without faults
            let log = Log::new(Mode::Quiet);
            let _ = with_draws(vec![], base.clone(), || run(&s, k, Rec { log: &log, offs: &s.offs }));
            let calls = log.into_inner().ev.len() as i64;
            for &at in at {
                let at = if at < 0 { calls + at } else { at };
                if at < 0 || at >= calls { continue; }
                c.explore(&format!("{o:?} {} callback {at}", CONFIGS[k]), &base, sp.bound, || {
                    let log = Log::new(Mode::FailAt(at as u32));
                    let r = run(&s, k, Rec { log: &log, offs: &s.offs }).map_err(|c| format!("{}: {c}", CONFIGS[k]))?;
                    let l = log.into_inner();
                    let e: Result<(), String> = oracle(&s, k, &l.ev, &r, &mut memo);
                    e.map_err(|e| format!("{}: {}", CONFIGS[k], e.chars().take(400).collect::<String>()))?;
                    Ok(at as u64 * 2 + l.fired as u64)
                });
                if c.ctx.stopped() { return; }
            }
        }
    });
}
pub const FAR: [i64; 22] = [0, 1, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 4096, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, -1, -2];

/// One run per callback and builder, that callback fails.
fn each_callback(ctx: &Ctx, sp: &Space, configs: &[usize], oracle: impl Fn(&Subject, usize, &[Ev], &Result<Token, Seen>, &mut HashMap<u64, Result<(), String>>) -> Result<(), String> + Sync) {
    ctx.suite(&format!("each callback: {}", sp.name), &format!("{} x {} builders x error at every callback", sp.bound_text(), configs.len()), sp.cases.len() * configs.len(), |i| format!("{:?}", sp.cases[i / configs.len()]), |c| {
        let s = Subject::new(&sp.cases[c.index / configs.len()], sp.fmap);
        let k = configs[c.index % configs.len()];
        let mut memo = HashMap::new();
        for o in &sp.orders {
            let base = base_for(*o, &s.sizes);
            let mut at = 0;
            loop {
                let mut more = false;
                c.explore(&format!("{o:?} {} callback {at}", CONFIGS[k]), &base, sp.bound, || {
                    let log = Log::new(Mode::FailAt(at));
                    let r = run(&s, k, Rec { log: &log, offs: &s.offs }).map_err(|c| format!("{}: {c}", CONFIGS[k]))?;
                    let l = log.into_inner();
                    more = l.fired;
                    oracle(&s, k, &l.ev, &r, &mut memo).map_err(|e| format!("{}: {e}", CONFIGS[k]))?;
                    Ok(at as u64 * 2 + l.fired as u64)
                });
                at += 1;
                if c.ctx.stopped() { return; }
                // when re-running one recorded execution, tags that were not recorded do not run
                if !more && !(c.ctx.only.is_some() && (at as usize) < 4 * s.n() + 8) { break; }
            }
        }
    });
}

pub fn c07(ctx: &Ctx) {
    let all = [0, 1, 2, 3, 4, 5, 6];
    let size = if ctx.quick() { Size::Small } else { Size::Full };
    let oracle = |s: &Subject, k: usize, ev: &[Ev], r: &Result<Token, Seen>, memo: &mut HashMap<u64, Result<(), String>>| -> Result<(), String> {
        let raised = ev.iter().any(|e| matches!(e, Ev::Raised(_)));
        match r {
            Err(e) if raised => check_injected(ev, e),
            Ok(_) if raised => Err(format!("a callback raised an error, but success was returned: {ev:?}")),
            _ => success(s, k, ev, r, memo),
        }
    };
    let mut go = |mut sp: Space| {
        // faults far into long runs have a suite of their own
        if sp.name == "masses" { return; }
        // one fault is one deviation
        if let Bound::Dev(0) = sp.bound { sp.bound = Bound::Dev(1); }
        sweep(ctx, &sp, &all, Mode::Choose, oracle)
    };
    // long fans
    let long: Vec<Vec<Poly>> = large_polygons(&[40, 64]).into_iter().map(|x| x.1).collect();
    go(Space::new("families n~40,64", long, &[Order::Identity, Order::EvenOdd], Bound::Dev(1)));
    plain_spaces(size, &mut go);
    multi_spaces(size, &mut go);
    let (n, few): (i64, usize) = if ctx.quick() { (300, 12) } else { (600, usize::MAX) };
    let mut sp = long_space(n, &[Order::Scrambled]);
    sp.cases.truncate(few);
    each_callback(ctx, &sp, &all, oracle);
    let mut sp = long_space(70_000, &[Order::Scrambled]);
    if ctx.quick() { sp.cases = sp.cases.into_iter().step_by(4).collect(); }
    listed_callbacks(ctx, &sp, &all, &FAR, oracle);
}
