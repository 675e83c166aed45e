//! mc: bounded exhaustive exploration of the barcoders crate.
//!   mc run <property> <quick|thorough>     explore, write evidence/<property>.json
//!   mc replay <file>                       re-execute one recorded counterexample

mod alloc;
mod case;
mod conf;
mod engine;
mod explore;
mod genfam;
mod hist;
mod imp;
mod json;
mod lives;
mod mem;
mod refs;
mod svgparse;
mod sweep;
mod symfam;

#[global_allocator]
static ALLOC: alloc::Switch = alloc::Switch;

use case::Case;
use engine::{Ctx, Slots, Tier};
use json::J;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn work() -> String {
    let d = format!("{}/target/run", verif());
    std::fs::create_dir_all(&d).expect("work directory");
    d
}

fn limit_memory(gib: u64) {
    let r = libc::rlimit {
        rlim_cur: gib << 30,
        rlim_max: gib << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// known_findings.txt: "KNOWN property=C09 char='+' pattern=101..." lines.
fn known_codabar() -> Vec<(char, Vec<u8>)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN property=C09 char='")?;
            let c = l.chars().next()?;
            let p = l.split("pattern=").nth(1)?.split_whitespace().next()?;
            Some((c, p.bytes().map(|b| b - b'0').collect()))
        })
        .collect()
}

fn write_replay(prop: &str, c: &Case, msg: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, prop);
    let j = J::Obj(vec![
        ("property".into(), J::s(prop)),
        ("case".into(), c.to_json()),
        ("message".into(), J::s(msg)),
        ("replay".into(), J::s(format!("./check replay {}", path))),
    ]);
    std::fs::write(&path, j.text() + "\n").expect("write replay");
    path
}

/// One printable line.
fn line(m: &str) -> String {
    m.chars().take(1500).flat_map(|c| if c.is_control() || c == '\u{fffd}' { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect()
}

fn report(prop: &str, c: &Case, msg: &str) {
    let path = write_replay(prop, c, msg);
    println!("{}: {}", prop, line(msg));
    println!("  case: {}", c.to_json().text().chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", prop, path);
    let _ = std::io::stdout().flush();
}

fn explore_property(ctx: &Ctx) -> bool {
    match &ctx.prop[..] {
        "C01" => symfam::retail(ctx, refs::Ean13),
        "C02" => symfam::retail(ctx, refs::Upca),
        "C03" => symfam::retail(ctx, refs::Ean8),
        "C04" => symfam::supplements(ctx),
        "C05" => symfam::check_digit(ctx),
        "C06" => symfam::code39(ctx),
        "C07" => symfam::code93(ctx),
        "C08" => symfam::code11(ctx),
        "C09" => symfam::codabar(ctx),
        "C10" => symfam::itf(ctx),
        "C11" => symfam::stf(ctx),
        "C12" => symfam::code128_scan(ctx),
        "C13" => symfam::code128_accept(ctx),
        "C14" => symfam::acceptance(ctx),
        "C15" => genfam::ascii(ctx),
        "C16" => genfam::json(ctx),
        "C17" => genfam::svg(ctx),
        "C18" => genfam::buffer(ctx),
        "C19" => genfam::files(ctx),
        "C20" => genfam::limits(ctx),
        "C21" => genfam::defaults(ctx),
        "C22" => hist::explore_all(ctx),
        "C23" => conf::explore(ctx),
        "C24" => genfam::end_to_end(ctx),
        "C25" => {
            mem::explore(ctx);
            return true;
        }
        _ => return false,
    }
    symfam::addresses(ctx);
    true
}

fn evidence(ctx: &Ctx, violations: usize) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let fams = ctx.fams.lock().unwrap();
    let sum = |f: &dyn Fn(&engine::Family) -> u64| fams.iter().map(f).sum::<u64>();
    let capped = fams.iter().any(|f| f.capped) || ctx.stop.load(Relaxed);
    let mut cov = vec![
        ("states".to_string(), J::num(sum(&|f| f.states))),
        ("transitions".into(), J::num(sum(&|f| f.transitions))),
        ("traces_validated_against_impl".into(), J::num(sum(&|f| f.execs))),
        ("samples".into(), J::Arr(ctx.samples.lock().unwrap().clone())),
        (
            "outcomes".into(),
            J::Obj(ctx.outcomes.lock().unwrap().iter().map(|(k, v)| (k.clone(), J::num(*v))).collect()),
        ),
        (
            "families".into(),
            J::Arr(
                fams.iter()
                    .map(|f| {
                        J::Obj(vec![
                            ("name".into(), J::s(f.name.clone())),
                            ("bound".into(), J::s(f.bound.clone())),
                            ("states".into(), J::num(f.states)),
                            ("transitions".into(), J::num(f.transitions)),
                            ("executions".into(), J::num(f.execs)),
                            ("seconds".into(), J::num(format!("{:.2}", f.secs))),
                            ("stopped_early".into(), J::Bool(f.capped)),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("bounds_completed".into(), J::Bool(!capped)),
    ];
    if ["C03", "C04"].contains(&&ctx.prop[..]) {
        cov.push(("exhaustive".into(), J::Bool(!capped)));
    }
    for (k, v) in ctx.extra.lock().unwrap().iter() {
        cov.push((k.clone(), v.clone()));
    }
    let j = J::Obj(vec![
        ("property".into(), J::s(ctx.prop.clone())),
        ("tier".into(), J::s(if ctx.quick() { "quick" } else { "thorough" })),
        ("seed".into(), J::num(seed)),
        ("level".into(), J::s("model_checking")),
        ("coverage".into(), J::Obj(cov)),
        (
            "assumptions".into(),
            J::Arr(
                [
                    "the reference models in harness/src state the published symbologies and formats correctly",
                    "rustc, std and (for C19, C20, C24) the image crate's decoders are correct",
                    "behaviour outside the enumerated bounds is not covered",
                ]
                .iter()
                .map(|s| J::s(*s))
                .collect(),
            ),
        ),
        ("wall_s".into(), J::num(format!("{:.2}", ctx.start.elapsed().as_secs_f64()))),
        ("violations".into(), J::num(violations)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), ctx.prop), j.text() + "\n").expect("write evidence");
}

/// Greedy shrinking; every candidate is judged by the same rule.
fn minimise(prop: &str, mut c: Case, mut msg: String) -> (Case, String) {
    let t = Instant::now();
    'again: loop {
        for d in c.shrink() {
            if t.elapsed() > Duration::from_secs(10) {
                break 'again;
            }
            if let Err(m) = case::judge(prop, &d) {
                c = d;
                msg = m;
                continue 'again;
            }
        }
        break;
    }
    (c, msg)
}

fn inner(prop: &str, tier: Tier, slotfile: &str) -> i32 {
    limit_memory(26);
    imp::install_hook();
    let known = symfam::probe_codabar(&known_codabar());
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(prop, tier, Slots::map(slotfile, false))));
    std::thread::spawn(move || ctx.watchdog());
    if prop == "C09" {
        for l in &known {
            println!("{}", l);
        }
    }
    if !explore_property(ctx) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let mut v = std::mem::take(&mut *ctx.viol.lock().unwrap());
    evidence(ctx, v.len());
    if v.is_empty() {
        let (s, t, e) = ctx.fams.lock().unwrap().iter().fold((0, 0, 0), |a, f| (a.0 + f.states, a.1 + f.transitions, a.2 + f.execs));
        println!(
            "{}: held on everything explored: {} states, {} transitions, {} executions of the code, {:.1} s",
            prop,
            s,
            t,
            e,
            ctx.start.elapsed().as_secs_f64()
        );
        return 0;
    }
    v.sort_by_key(|(c, _)| c.size());
    let (c, m) = v.swap_remove(0);
    // From here on the smallest case found is already a violation; a crash or hang while shrinking
    // must not lose it.
    let path = write_replay(prop, &c, &m);
    let _ = std::fs::write(format!("{}.found", slotfile), format!("{}: {}\nVIOLATION property={} replay={}\n", prop, line(&m), prop, path));
    let (c, m) = minimise(prop, c, m);
    report(prop, &c, &m);
    1
}

/// Judges one case in a process of its own. 0: holds, 1: violated, 2: error.
fn judge_file(path: &str, quiet: bool) -> i32 {
    limit_memory(16);
    imp::install_hook();
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let Ok(j) = json::parse(t.trim()) else {
        eprintln!("{} is not JSON", path);
        return 2;
    };
    let (Some(prop), Some(c)) = (j.get("property").and_then(|p| p.str()), j.get("case").and_then(Case::from_json)) else {
        eprintln!("{} does not name a case", path);
        return 2;
    };
    if !matches!(c, Case::Hist(_) | Case::Conf(_)) {
        symfam::probe_codabar(&known_codabar());
    }
    if prop == "C25" {
        alloc::CTL.count.store(2, Relaxed);
    }
    match case::judge(prop, &c) {
        Ok(o) => {
            if !quiet {
                println!("{}: holds here: {}", prop, line(&o));
            }
            0
        }
        Err(m) => {
            println!("{}: {}", prop, line(&m));
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    }
}

pub enum Apart {
    Holds,
    Violated(String),
    /// Crash, no answer in time, or an error of the harness.
    Unknown(String),
}

/// Runs `mc judge file`.
fn judge_child(path: &str, secs: u64) -> Apart {
    let me = std::env::current_exe().expect("own path");
    let mut ch = Command::new(me)
        .args(["judge", path])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                let mut out = String::new();
                use std::io::Read;
                if let Some(mut o) = ch.stdout.take() {
                    let _ = o.read_to_string(&mut out);
                }
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Apart::Holds,
                    (Some(1), _) => Apart::Violated(out.lines().next().unwrap_or("violated").to_string()),
                    (Some(2), _) => Apart::Holds,
                    (Some(c), _) => Apart::Unknown(format!("the process exits with status {}", c)),
                    (_, s) => Apart::Unknown(format!("the process dies with signal {}", s.unwrap_or(0))),
                };
            }
            None if t.elapsed() > Duration::from_secs(secs) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Apart::Unknown(format!("does not return within {} s", secs));
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

/// Some(why) if the recorded case violates, crashes or does not return.
fn judge_in_child(path: &str) -> Option<String> {
    match judge_child(path, 60) {
        Apart::Holds => None,
        Apart::Violated(m) | Apart::Unknown(m) => Some(m),
    }
}

/// Judges a case in a process of its own.
pub fn judge_apart(prop: &str, c: &Case, secs: u64) -> Apart {
    judge_apart_as(prop, c, secs, 0)
}

/// As judge_apart, for the worker `id`.
pub fn judge_apart_as(prop: &str, c: &Case, secs: u64, id: usize) -> Apart {
    let path = format!("{}/apart-{}-{}-{}.json", work(), prop, std::process::id(), id);
    let j = J::Obj(vec![("property".into(), J::s(prop)), ("case".into(), c.to_json())]);
    std::fs::write(&path, j.text()).expect("write case");
    let r = judge_child(&path, secs);
    let _ = std::fs::remove_file(&path);
    r
}

/// Supervisor: the exploration runs in a child, so that a crash or hang of the code under test is
/// attributed to the input that causes it.
fn run(prop: &str, tier: &str) -> i32 {
    let slotfile = format!("{}/slots-{}-{}", work(), prop, std::process::id());
    let slots = Slots::map(&slotfile, true);
    let me = std::env::current_exe().expect("own path");
    let st = Command::new(me).args(["inner", prop, tier, &slotfile]).status().expect("spawn");
    let code = match (st.code(), st.signal()) {
        (Some(c @ (0..=2)), _) => c,
        (..) if std::path::Path::new(&format!("{}.found", slotfile)).exists() => {
            print!("{}", std::fs::read_to_string(format!("{}.found", slotfile)).unwrap_or_default());
            1
        }
        (c, s) => {
            eprintln!("exploration ended abnormally (status {:?}, signal {:?}); replaying the cases in flight", c, s);
            let mut code = 2;
            for c in slots.busy() {
                let path = write_replay(prop, &c, "crash or hang");
                if let Some(why) = judge_in_child(&path) {
                    report(prop, &c, &why);
                    code = 1;
                    break;
                }
            }
            if code == 1 {
                crash_evidence(prop, tier);
            }
            code
        }
    };
    let _ = std::fs::remove_file(format!("{}.found", slotfile));
    let _ = std::fs::remove_file(&slotfile);
    code
}

fn crash_evidence(prop: &str, tier: &str) {
    let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let f = format!("{}/slots-ev-{}", work(), std::process::id());
    let ctx = Ctx::new(prop, t, Slots::map(&f, true));
    ctx.stop.store(true, Relaxed);
    ctx.samples.lock().unwrap().push(J::s("exploration ended by a crash or hang of the code under test"));
    evidence(&ctx, 1);
    let _ = std::fs::remove_file(f);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| &x[..]).collect();
    exit(match &s[1..] {
        ["run", p, t] => run(p, t),
        ["inner", p, t, f] => inner(p, if *t == "thorough" { Tier::Thorough } else { Tier::Quick }, f),
        ["replay", f] => match judge_in_child(f) {
            None => {
                judge_file(f, false)
            }
            Some(m) => {
                println!("{}", line(&m));
                let prop = std::fs::read_to_string(f)
                    .ok()
                    .and_then(|t| json::parse(t.trim()).ok())
                    .and_then(|j| j.get("property").and_then(|p| p.str().map(String::from)))
                    .unwrap_or_default();
                println!("VIOLATION property={} replay={}", prop, f);
                1
            }
        },
        ["judge", f] => judge_file(f, true),
        ["warm"] => conf::warm(),
        ["hist", task] => {
            imp::install_hook();
            hist::worker(task)
        }
        _ => {
            eprintln!("usage: mc run <property> <quick|thorough> | mc replay <file>");
            2
        }
    });
}
