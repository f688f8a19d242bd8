//! C15 diagnostic output does not change results.
//!
//! The plain build (feature off) is the reference. For every diagnostic configuration a server
//! process, built with the debugging feature and started with that configuration's environment in a
//! scratch directory of its own, repeats the same executions; results are compared one by one, and
//! after every execution the scratch directory is searched for files where none may be.

use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

use triangulate::{ListFormat, Polygon, PolygonList};

use crate::builders::*;
use crate::checks::geometry::*;
use crate::explore::*;
use crate::geom::*;
use crate::real::Fx;
use crate::spaces::*;
use crate::subject::*;

// ------------------------------------------------------------------ executions

/// A family of calls: inputs, draws and output formats.
pub struct Set { name: String, cases: Vec<Vec<Vec<V>>>, orders: Vec<Order>, bound: Bound, modes: Vec<(Mode, bool)>, fuel: u64 }

fn coords(ps: &[Poly], f: Fmap) -> Vec<Vec<V>> { ps.iter().map(|p| p.iter().map(|&q| { let (x, y) = f(q); [Fx(x), Fx(y)] }).collect()).collect() }

fn sets(quick: bool) -> Vec<Set> {
    let id = vec![Order::Identity];
    let all = |v: Vec<Vec<Poly>>, f: Fmap| -> Vec<Vec<Vec<V>>> { v.iter().map(|p| coords(p, f)).collect() };
    let q = vec![(Mode::Quiet, false)];
    let mut v = vec![];
    // the core, for every configuration
    let mut core = all(vec![vec![square(0, 0, 3, 3)], vec![vec![(0, 0), (6, 1), (3, 2), (5, 6), (2, 3), (-1, 5)]], vec![square(0, 0, 9, 9), vec![(3, 3), (6, 4), (4, 6)]], vec![vec![(0, 0), (2, 0), (1, 2)], vec![(4, 0), (6, 1), (5, 3)]], vec![comb(4)]], plain);
    core.extend([vec![], vec![vec![]], vec![vec![], vec![]], coords(&[vec![(0, 0)]], plain), coords(&[vec![(0, 0), (1, 1)]], plain), coords(&[square(0, 0, 1, 1), vec![(5, 5)]], plain)]);
    let modes = vec![(Mode::Quiet, false), (Mode::Quiet, true), (Mode::FailAt(0), false), (Mode::FailAt(1), false), (Mode::FailAt(2), true), (Mode::PanicAt(0), false), (Mode::PanicAt(1), true)];
    v.push(Set { name: "core".into(), cases: core, orders: vec![Order::Identity, Order::Stride(3)], bound: Bound::Dev(0), modes, fuel: 400_000 });
    for n in 3..=4 { v.push(Set { name: format!("grid3x3 n={n}"), cases: all(grid_list(3, 3, n..=n), plain), orders: id.clone(), bound: Bound::All, modes: q.clone(), fuel: 400_000 }); }
    v.push(Set { name: "grid3x3 n=5".into(), cases: all(grid_list(3, 3, 5..=5), plain), orders: id.clone(), bound: Bound::Dev(if quick { 1 } else { 4 }), modes: q.clone(), fuel: 400_000 });
    v.push(Set { name: "grid3x3 n=6..9".into(), cases: all(grid_list(3, 3, 6..=9), plain), orders: id.clone(), bound: Bound::Dev(if quick { 0 } else { 1 }), modes: q.clone(), fuel: 800_000 });
    v.push(Set { name: "sheared 3x3 n=5..6".into(), cases: all(grid_list(3, 3, 5..=6).iter().map(|p| shear(p, 5)).collect(), plain), orders: id.clone(), bound: Bound::Dev(if quick { 0 } else { 1 }), modes: q.clone(), fuel: 800_000 });
    for (name, m) in [("tiny", tiny as Fmap), ("huge", huge), ("centred", centred)] { v.push(Set { name: format!("grid3x3 {name} n=3..5"), cases: all(grid_list(3, 3, 3..=5), m), orders: id.clone(), bound: Bound::Dev(0), modes: q.clone(), fuel: 400_000 }); }
    v.push(Set { name: "families n~12,20".into(), cases: all(large_polygons(&[12, 20]).into_iter().map(|x| x.1).collect(), plain), orders: ORDERS.to_vec(), bound: Bound::Dev(0), modes: q.clone(), fuel: 2_000_000 });
    // more steps than a byte can count
    v.push(Set { name: "long".into(), cases: all(vec![vec![comb(150)], vec![lens(301)], large_polygons(&[260]).swap_remove(3).1], plain), orders: vec![Order::Scrambled], bound: Bound::Dev(0), modes: q.clone(), fuel: 20_000_000 });
    v.push(Set { name: "arrangements".into(), cases: all(arrangements(true).into_iter().map(|x| x.1).collect(), plain), orders: vec![Order::Identity, Order::EvenOdd], bound: Bound::Dev(0), modes: q.clone(), fuel: 2_000_000 });
    v.push(Set { name: "nested 4x4 (4,3)".into(), cases: all(pairs(&ccw_only(grid_polys(4, 4, 4)), &grid_polys(2, 2, 3).iter().map(|p| shift(p, 1, 1)).collect::<Vec<_>>(), Some(true)), plain), orders: id.clone(), bound: Bound::Dev(0), modes: q.clone(), fuel: 800_000 });
    // invalid input
    let words = |alpha: &[V], n: usize| -> Vec<Vec<Vec<V>>> { let g = alpha.len(); (0..g.pow(n as u32)).map(|i| { let mut x = i; vec![(0..n).map(|_| { let v = alpha[x % g]; x /= g; v }).collect()] }).collect() };
    let grid: Vec<V> = (0..9).map(|i| [Fx((i % 3) as f64), Fx((i / 3) as f64)]).collect();
    let vals = [0.0, 1.0, f64::NAN, f64::INFINITY];
    let odd: Vec<V> = vals.iter().flat_map(|&x| vals.iter().map(move |&y| [Fx(x), Fx(y)])).collect();
    v.push(Set { name: "any 3 of 3x3".into(), cases: words(&grid, 3), orders: id.clone(), bound: Bound::Dev(0), modes: q.clone(), fuel: 20_000 });
    v.push(Set { name: "any 4 of 3x3".into(), cases: words(&grid, 4), orders: id.clone(), bound: Bound::Dev(0), modes: q.clone(), fuel: 20_000 });
    v.push(Set { name: "non-finite, 3 vertices".into(), cases: words(&odd, 3), orders: id, bound: Bound::Dev(0), modes: q, fuel: 20_000 });
    v
}

/// What one call did, as text: callbacks and result (error kinds, not their wording).
fn call(list: &Vec<Vec<V>>, offs: &[u32], mode: Mode, as_list: bool, fuel: u64) -> String {
    let log = Log::new(mode);
    let rec = Rec { log: &log, offs };
    let r = guarded(fuel, || {
        let r = match (list.len(), as_list) {
            (1, false) => Polygon::triangulate(&list[0], RecFan::<false>(rec)),
            (1, true) => Polygon::triangulate(&list[0], RecList::<true>(rec).into_fan_format()),
            (_, false) => PolygonList::triangulate(list, RecFan::<false>(rec)),
            (_, true) => PolygonList::triangulate(list, RecList::<true>(rec).into_fan_format()),
        };
        r.map_err(|e| kind(seen(&e)))
    });
    let ev: Vec<Ev> = log.into_inner().ev.into_iter().map(|e| match e { Ev::Init(_, t) => Ev::Init(0, t), Ev::InitList(_) => Ev::InitList(0), Ev::Fail(s) => Ev::Fail(kind(s)), e => e }).collect();
    let r = match r { Ok(r) => format!("{r:?}"), Err(Crash::Fuel) => "endless".into(), Err(Crash::Panic(_)) => "panic".into() };
    format!("{ev:?} -> {r}")
}
fn kind(s: Seen) -> Seen { match s { Seen::TrapInternal(_) => Seen::TrapInternal(String::new()), Seen::Internal(_) => Seen::Internal(String::new()), s => s } }

/// All executions of one case in a fixed order.
fn executions(set: &Set, case: usize, slow: u64, mut each: impl FnMut(String, (u64, u64))) {
    let list = &set.cases[case];
    let sizes: Vec<usize> = list.iter().map(|p| p.len()).collect();
    let mut offs = vec![0u32];
    for s in &sizes { offs.push(offs.last().unwrap() + *s as u32); }
    for o in &set.orders { for &(mode, as_list) in &set.modes {
        let base = base_for(*o, &sizes);
        let mut prefix: Vec<u32> = vec![];
        loop {
            let (text, mut trace, _) = with_draws(prefix.clone(), base.clone(), || call(list, &offs, mode, as_list, set.fuel * slow));
            each(text, (trace.len() as u64, (trace.len() - prefix.len().min(trace.len())) as u64 + 1));
            let mut devs = trace.iter().filter(|x| x.0 != 0).count() as u32;
            while let Some(&(a, n)) = trace.last() {
                if a != 0 { devs -= 1; }
                let fits = match set.bound { Bound::All => true, Bound::Dev(k) => devs + 1 <= k };
                if a + 1 < n && fits { break; }
                trace.pop();
            }
            if trace.is_empty() { break; }
            trace.last_mut().unwrap().0 += 1;
            prefix = trace.iter().map(|x| x.0).collect();
        }
    } }
}
fn hash_text(s: &str) -> u64 { hash_u32s(s.bytes().map(|b| b as u32)) }

// ------------------------------------------------------------------ configurations

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dir { Unset, Usable, Used, Clogged, Full, Missing, File, Relative }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Config { dir: Dir, level: Option<&'static str>, hide: bool }
impl Config {
    fn all() -> Vec<Config> {
        let mut v = vec![];
        for dir in [Dir::Usable, Dir::Unset, Dir::Used, Dir::Clogged, Dir::Full, Dir::Missing, Dir::File, Dir::Relative] { for level in [Some("3"), Some("2"), Some("1"), Some("0"), None, Some("verbose")] { for hide in [false, true] { v.push(Config { dir, level, hide }); } } }
        v
    }
    fn name(&self) -> String { format!("dir {:?}, level {}, labels {}", self.dir, self.level.unwrap_or("unset"), if self.hide { "hidden" } else { "shown" }) }
    fn may_write(&self) -> bool { self.dir != Dir::Unset && matches!(self.level, Some("1" | "2" | "3")) }
    /// The configured directory below the scratch directory.
    fn out(&self) -> &'static str { match self.dir { Dir::Unset => "-", Dir::Usable => "out", Dir::Used => "used", Dir::Clogged => "clogged", Dir::Full => "out", Dir::Missing => "missing/deeper", Dir::File => "file", Dir::Relative => "cwd/rel" } }
}

// ------------------------------------------------------------------ server (debugging build)

/// `mc serve QUICK OUT MAYWRITE`: reads "set case" lines, answers with one hash per execution.
pub fn serve(args: &[String]) {
    let quick = args[0] == "quick";
    let root = PathBuf::from(&args[1]);
    let (out, may_write) = (args[2].clone(), args[3] == "true");
    let sets = sets(quick);
    let mut line = String::new();
    let stdin = std::io::stdin();
    let before = tree(&root, &out);
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 { return; }
        let f: Vec<usize> = line.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let (set, case, verbose) = (&sets[f[0]], f[1], f.get(2).copied());
        let mut hs: Vec<String> = vec![];
        let mut trouble = None;
        let mut k = 0;
        let (mut files, mut n) = (0, 0);
        let (mut steps, mut states) = (0, 0);
        executions(set, case, 60, |t, (a, b)| {
            steps += a; states += b;
            if trouble.is_none() {
                let now = tree(&root, &out);
                let strays: Vec<String> = now.iter().filter(|x| !before.contains(x)).map(|x| x.0.clone()).collect();
                let gone: Vec<String> = before.iter().filter(|x| !now.contains(x)).map(|x| x.0.clone()).collect();
                if !strays.is_empty() || !gone.is_empty() { trouble = Some(format!("execution {k}: files outside the configured directory changed: {} {}", strays.join(" "), gone.join(" "))); }
                let inside = clean(&root.join(&out));
                files += inside; n += 1;
                if inside > 0 && !may_write { trouble = Some(format!("execution {k}: {inside} files were written although no output is configured")); }
            }
            if verbose == Some(k) { hs = vec![t.clone()]; }
            if verbose.is_none() { hs.push(hash_text(&t).to_string()); }
            k += 1;
        });
        let mut o = std::io::stdout();
        let _ = match trouble { Some(t) => writeln!(o, "stray {t}"), None => writeln!(o, "ok {files} {states} {steps} {}", hs.join(if verbose.is_some() { " " } else { "," })) };
        let _ = o.flush();
    }
}
/// Every file outside the configured directory, with its size. Directories do not count as files.
fn tree(root: &Path, out: &str) -> Vec<(String, u64)> {
    fn walk(p: &Path, skip: &Path, v: &mut Vec<(String, u64)>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            if q == skip { continue; }
            if q.is_dir() { walk(&q, skip, v) } else { v.push((q.display().to_string(), e.metadata().map(|m| m.len()).unwrap_or(0))) }
        }
    }
    let mut v = vec![];
    // a configured path that is a plain file stays under observation
    let skip = root.join(out);
    let skip = if skip.is_dir() { skip } else { PathBuf::from("/nonexistent") };
    walk(root, &skip, &mut v);
    v.sort();
    v
}
/// Empties the configured directory (never anything above it); how many files there were, markers aside.
fn clean(out: &Path) -> u64 {
    let mut n = 0;
    let Ok(rd) = std::fs::read_dir(out) else { return 0 };
    for e in rd.flatten() {
        let q = e.path();
        if q.is_dir() {
            if let Ok(r2) = std::fs::read_dir(&q) { for f in r2.flatten() { if f.file_name() != "keep.txt" && !f.path().is_dir() { n += 1; let _ = std::fs::remove_file(f.path()); } } }
            if !q.join("keep.txt").exists() { let _ = std::fs::remove_dir(&q); }
        } else { n += 1; let _ = std::fs::remove_file(&q); }
    }
    n
}

// ------------------------------------------------------------------ client (plain build)

struct Server { child: Child, to: ChildStdin, from: BufReader<ChildStdout>, root: PathBuf }
impl Server {
    fn start(c: &Config, quick: bool, worker: usize) -> Server {
        let shm = Path::new("/dev/shm");
        // memory-backed if possible: hundreds of thousands of small files come and go
        let base = if std::fs::create_dir(shm.join(format!("mc-c15-{}-{worker}", std::process::id()))).is_ok() { shm.to_path_buf() } else { std::env::temp_dir() };
        let root = base.join(format!("mc-c15-{}-{worker}", std::process::id()));
        let _ = std::fs::remove_dir_all(&root);
        for d in ["out", "used", "cwd/rel", "tmp", "home"] { std::fs::create_dir_all(root.join(d)).expect("scratch directory"); }
        for k in 0..3 { let d = root.join(format!("used/{k:03}")); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("keep.txt"), "kept").unwrap(); }
        // directories where the files would go
        for k in 0..2 { for d in ["000.svg", "001.svg", "state.txt"] { std::fs::create_dir_all(root.join(format!("clogged/{k:03}/{d}"))).unwrap(); } std::fs::write(root.join(format!("clogged/{k:03}/keep.txt")), "kept").unwrap(); }
        std::fs::write(root.join("file"), "a file").unwrap();
        let bin = std::env::var("MC_BIN_DEBUGGING").expect("MC_BIN_DEBUGGING");
        let mut cmd = Command::new(if c.dir == Dir::Full { "/bin/sh" } else { &bin });
        // a full disk: files can be made, but every write past the first block fails
        if c.dir == Dir::Full { cmd.arg("-c").arg("trap '' XFSZ; ulimit -f 1; exec \"$0\" \"$@\"").arg(&bin); }
        cmd.arg("serve").arg(if quick { "quick" } else { "thorough" }).arg(&root).arg(c.out()).arg(c.may_write().to_string());
        cmd.current_dir(root.join("cwd")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        cmd.env("TMPDIR", root.join("tmp")).env("HOME", root.join("home"));
        for k in ["OUTPUT_PATH", "OUTPUT_LEVEL", "HIDE_LABELS"] { cmd.env_remove(format!("TRIANGULATE_SVG_{k}")); }
        match c.dir { Dir::Unset => { } Dir::Relative => { cmd.env("TRIANGULATE_SVG_OUTPUT_PATH", "rel"); } _ => { cmd.env("TRIANGULATE_SVG_OUTPUT_PATH", root.join(c.out())); } }
        if let Some(l) = c.level { cmd.env("TRIANGULATE_SVG_OUTPUT_LEVEL", l); }
        if c.hide { cmd.env("TRIANGULATE_SVG_HIDE_LABELS", "1"); }
        let mut child = cmd.spawn().expect("debugging build");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Server { child, to, from, root }
    }
    fn ask(&mut self, q: &str) -> Result<String, String> {
        let mut l = String::new();
        let sent = writeln!(self.to, "{q}").and_then(|_| self.to.flush());
        if sent.is_err() || self.from.read_line(&mut l).unwrap_or(0) == 0 {
            let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("the process died ({st})"));
        }
        Ok(l.trim_end().to_string())
    }
}
impl Drop for Server {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); let _ = std::fs::remove_dir_all(&self.root); }
}

pub fn c15(ctx: &Ctx) {
    let quick = ctx.quick();
    let sets = sets(quick);
    // reference results, once per case; None: some execution does not terminate (only on invalid input)
    let refs: Vec<Vec<Mutex<Option<Option<Vec<u64>>>>>> = sets.iter().map(|s| s.cases.iter().map(|_| Mutex::new(None)).collect()).collect();
    let written = std::sync::atomic::AtomicU64::new(0);
    for (ci, config) in Config::all().iter().enumerate() {
        for (si, set) in sets.iter().enumerate() {
            // everything under the configurations that write most, the core under all of them
            let main = matches!((config.dir, config.level), (Dir::Usable, Some("3"))) || matches!((config.dir, config.level, config.hide), (Dir::Usable, Some("2"), true) | (Dir::Unset, None, false));
            let second = matches!(config.dir, Dir::Used | Dir::Clogged | Dir::Full) && config.level == Some("3") || config.dir == Dir::Missing && config.level == Some("3") && !config.hide;
            let wide = ["grid3x3 n=3", "grid3x3 n=4", "arrangements", "any 3 of 3x3"].contains(&set.name.as_str());
            if !(main || si == 0 || second && wide || !quick && wide) { continue; }
            // labels do not matter for all inputs
            if config.hide && main && quick && set.name.starts_with("any 4") { continue; }
            let servers: Vec<Mutex<Option<Server>>> = (0..64).map(|_| Mutex::new(None)).collect();
            ctx.suite(&format!("{}: {}", config.name(), set.name), &format!("{} from each of {:?} x {} output formats", set.bound.text(), set.orders, set.modes.len()), set.cases.len(), |i| format!("{:?}", set.cases[i]), |c| {
                c.beat();
                let want = refs[si][c.index].lock().unwrap().clone();
                let want = want.unwrap_or_else(|| {
                    let mut v = vec![]; let mut endless = false;
                    executions(set, c.index, 1, |t, _| { endless |= t.ends_with("endless"); v.push(hash_text(&t)); });
                    let r = if endless { None } else { Some(v) };
                    *refs[si][c.index].lock().unwrap() = Some(r.clone());
                    r
                });
                let Some(want) = want else { return };
                let mut slot = servers[c.worker_id()].lock().unwrap();
                let mut died = None;
                let srv = slot.get_or_insert_with(|| Server::start(config, quick, c.worker_id()));
                match srv.ask(&format!("{si} {}", c.index)) {
                    Err(e) => died = Some(e),
                    Ok(a) => {
                        if let Some(t) = a.strip_prefix("stray ") { c.fail("", vec![], format!("{}: {t}", config.name()), true); return; }
                        let mut f = a.split(' ');
                        f.next();
                        let files: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        written.fetch_add(files, std::sync::atomic::Ordering::Relaxed);
                        let states: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let steps: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let got: Vec<u64> = f.next().unwrap_or("").split(',').filter_map(|x| x.parse().ok()).collect();
                        c.count(got.len() as u64, states, steps);
                        if c.index == set.cases.len() / 2 { c.ctx.sample(|| { let mut first = None; executions(set, c.index, 1, |t, _| { first.get_or_insert(t); }); format!("{}, {}: {:?}: {} executions agree, {files} diagnostic files; first: {}", config.name(), set.name, set.cases[c.index], got.len(), first.unwrap_or_default()) }); }
                        for h in &got { c.outcome(*h ^ (ci as u64) << 50); }
                        if got != want {
                            let k = (0..got.len().max(want.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
                            let mut plain = String::new(); let mut n = 0;
                            executions(set, c.index, 1, |t, _| { if n == k { plain = t; } n += 1; });
                            let dbg = srv.ask(&format!("{si} {} {k}", c.index)).unwrap_or_else(|e| e);
                            c.fail("", vec![], format!("{}: execution {k} gives\n{dbg}\nwithout the debugging feature:\n{plain}", config.name()), true);
                        }
                    }
                }
                if let Some(e) = died { *slot = None; c.fail("", vec![], format!("{}: {e}", config.name()), true); }
            });
            if ctx.stopped() { return; }
        }
    }
    ctx.extra.lock().unwrap().push(("diagnostic_files_seen".into(), written.load(std::sync::atomic::Ordering::Relaxed).to_string()));
}
