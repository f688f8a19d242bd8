//! Model checker for colinjneville/triangulate. See ../DESIGN.md.
#![allow(dead_code)]
mod builders; mod checks; mod explore; mod geom; mod real; mod real32; mod spaces; mod subject;

#[cfg(feature = "isolation")]
mod real_hook;

use explore::*;

fn dispatch(ctx: &Ctx) {
    use checks::*;
    match ctx.prop.as_str() {
        #[cfg(feature = "geometry")]
        "C01" => geometry::c01(ctx),
        #[cfg(feature = "robust")]
        "C02" => robust::c02(ctx),
        #[cfg(feature = "geometry")]
        "C03" => geometry::c03(ctx),
        #[cfg(feature = "geometry")]
        "C04" => geometry::c04(ctx),
        #[cfg(feature = "geometry")]
        "C05" => geometry::c05(ctx),
        #[cfg(feature = "protocol")]
        "C06" => protocol::c06(ctx),
        #[cfg(feature = "protocol")]
        "C07" => protocol::c07(ctx),
        #[cfg(feature = "output")]
        "C08" => output::c08(ctx),
        #[cfg(feature = "output")]
        "C09" => output::c09(ctx),
        #[cfg(feature = "inputs")]
        "C10" => inputs::c10(ctx),
        #[cfg(feature = "inputs")]
        "C11" => inputs::c11(ctx),
        #[cfg(feature = "reuse")]
        "C12" => reuse::c12(ctx),
        #[cfg(feature = "robust")]
        "C13" => robust::c13(ctx),
        #[cfg(feature = "isolation")]
        "C14" => isolation::c14(ctx),
        #[cfg(feature = "diagnostics")]
        "C15" => diagnostics::c15(ctx),
        #[cfg(feature = "work")]
        "C16" => work::c16(ctx),
        p => { eprintln!("property {p} is not in this build"); std::process::exit(3); }
    }
}

fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
fn list(s: &str) -> Vec<u32> { s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect() }

/// `mc check ID TIER`: parent, survives crashes of the worker. `mc run ID TIER [SUITE CASE]`: worker.
/// `mc replay FILE`: one recorded execution.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let quiet = || std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(parent(&a[2], &a[3])),
        Some("run") => {
            quiet();
            let only = a.get(4).map(|s| Only { suite: s.clone(), case: a[5].parse().unwrap(), exec: None });
            let ctx = Ctx::new(&a[2], tier(&a[3]), only);
            dispatch(&ctx);
            std::process::exit(ctx.finish());
        }
        #[cfg(feature = "diagnostics")]
        Some("serve") => { quiet(); checks::diagnostics::serve(&a[2..]); }
        #[cfg(feature = "work")]
        Some("measure") => checks::work::measure(&a[2..]),
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
            println!("{}", txt.lines().filter(|l| l.starts_with('#')).collect::<Vec<_>>().join("\n"));
            let exec = if get("tag").is_empty() { None } else { Some((get("tag"), list(&get("base")), list(&get("alts")))) };
            quiet();
            std::env::set_var("MC_PART", get("part"));
            let ctx = Ctx::new(&get("property"), tier(&get("tier")), Some(Only { suite: get("suite"), case: get("case").parse().unwrap(), exec }));
            dispatch(&ctx);
            std::process::exit(ctx.finish());
        }
        _ => { eprintln!("usage: mc check|run ID quick|thorough, mc replay FILE"); std::process::exit(2); }
    }
}

/// The builds of the code under test a property is checked on, in order: part name and the variable
/// naming the executable ("" for this one).
fn parts(prop: &str) -> Vec<(&'static str, &'static str)> {
    match prop { "C02" => vec![("", ""), ("assertions", "MC_BIN_CHECKED")],
        "C13" => vec![("", ""), ("bounds checks", "MC_BIN_UBCHECKS"), ("assertions", "MC_BIN_CHECKED")],
        _ => vec![("", "")] }
}

fn parent(prop: &str, tier: &str) -> i32 {
    let tmp = std::env::temp_dir();
    let carry = [tmp.join(format!("mc-carry-{}-a", std::process::id())), tmp.join(format!("mc-carry-{}-b", std::process::id()))];
    let mut code = 0;
    for (i, (part, var)) in parts(prop).into_iter().enumerate() {
        let exe = match var { "" => std::env::current_exe().unwrap(), v => std::env::var(v).unwrap_or_else(|_| panic!("{v} not set")).into() };
        code = one_part(prop, tier, part, &exe, &carry[i % 2], &carry[(i + 1) % 2]);
        if code != 0 { break; }
    }
    for c in carry { let _ = std::fs::remove_file(c); }
    code
}

/// Runs the worker in a child process. A child that dies by a signal (abort, segmentation fault) is a
/// violation if, and only if, one of the cases it was working on kills a fresh child again.
fn one_part(prop: &str, tier: &str, part: &str, exe: &std::path::Path, carry_in: &std::path::Path, carry_out: &std::path::Path) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop, std::process::id()));
    let child = |extra: &[&str]| {
        let mut c = std::process::Command::new(exe);
        c.arg("run").arg(prop).arg(tier).args(extra).env("MC_SLOTS", &slots).env("MC_PART", part).env("MC_CARRY", carry_in).env("MC_CARRY_OUT", carry_out);
        c
    };
    let st = child(&[]).status().expect("spawn");
    if let Some(c) = st.code() { let _ = std::fs::remove_file(&slots); return c; }
    eprintln!("worker died: {st}; looking for the case");
    let data = std::fs::read(&slots).unwrap_or_default();
    let mut cands: Vec<(String, String)> = vec![];
    for s in data.chunks(SLOT as usize) {
        let t = String::from_utf8_lossy(s.split(|b| *b == 0).next().unwrap_or(&[])).to_string();
        let mut f = t.trim_end().split('\t');
        if let (Some(a), Some(b)) = (f.next(), f.next()) { cands.push((a.to_string(), b.to_string())); }
    }
    for (suite, case) in cands {
        let _ = std::fs::write(&slots, "");
        let st2 = child(&[&suite, &case]).stdout(std::process::Stdio::null()).status().expect("spawn");
        if st2.signal().is_some() {
            let d = std::fs::read(&slots).unwrap_or_default();
            let t = String::from_utf8_lossy(d.split(|b| *b == 0).next().unwrap_or(&[])).to_string();
            let f: Vec<String> = t.trim_end().split('\t').map(|s| s.to_string()).collect();
            let _ = std::fs::remove_file(&slots);
            std::env::set_var("MC_PART", part);
            let ctx = Ctx::new(prop, self::tier(tier), None);
            let g = |i: usize| f.get(i).cloned().unwrap_or_default();
            ctx.violation_now(Violation { suite, case: case.parse().unwrap_or(0), desc: "(process killed: run the replay to see the input)".into(), tag: g(2), base: list(&g(3)), alts: list(&g(4)),
                msg: format!("the process was killed by {st2} while executing this case (abort, memory error or memory exhaustion)"), reproduced: true });
            return ctx.finish();
        }
    }
    let _ = std::fs::remove_file(&slots);
    eprintln!("worker death not reproducible on a single case");
    3
}
