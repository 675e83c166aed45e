//! C23: the same workload under every feature combination and both build profiles.

use crate::case::Case;
use crate::engine::Ctx;
use crate::json::J;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

const FEATURES: [&str; 5] = ["ascii", "json", "svg", "std", "image"];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Config {
    mask: u8,
    release: bool,
}

impl Config {
    fn features(self) -> String {
        let v: Vec<&str> = (0..5).filter(|i| self.mask >> i & 1 == 1).map(|i| FEATURES[i]).collect();
        v.join(",")
    }
    fn profile(self) -> &'static str {
        if self.release {
            "release"
        } else {
            "debug"
        }
    }
    fn show(self) -> String {
        format!("[{}] {}", self.features(), self.profile())
    }
    fn from_json(j: &J) -> Option<Config> {
        let f = j.get("features")?.str()?.to_string();
        let mask = (0..5).filter(|&i| f.split(',').any(|x| x == FEATURES[i])).fold(0, |m, i| m | 1 << i);
        Some(Config {
            mask,
            release: j.get("profile")?.str()? == "release",
        })
    }
    fn to_json(self) -> J {
        J::Obj(vec![
            ("features".into(), J::s(self.features())),
            ("profile".into(), J::s(self.profile())),
        ])
    }
    /// Builds run in parallel across lanes and one after another within a lane.
    fn lane(self) -> usize {
        (self.mask >> 4) as usize * 2 + self.release as usize
    }
}

const ALL: Config = Config {
    mask: 31,
    release: true,
};

enum Built {
    Ok(PathBuf),
    /// The compiler rejects barcoders or a use of its API.
    Rejected(String),
    Failed(String),
}

static TARGET: Mutex<Option<String>> = Mutex::new(None);

fn target() -> String {
    let mut t = TARGET.lock().unwrap();
    t.get_or_insert_with(|| format!("{}/target", crate::verif())).clone()
}

fn build(c: Config) -> Built {
    let dir = format!("{}/conf-{}", target(), c.lane());
    let mut cmd = Command::new("cargo");
    cmd.args(["build", "--offline", "--no-default-features", "--features", &c.features()])
        .args(["--manifest-path", &format!("{}/probe/Cargo.toml", crate::verif())])
        .args(["--target-dir", &dir])
        .args(["-j", "2"])
        .env("CARGO_INCREMENTAL", "0")
        .env("CARGO_PROFILE_DEV_DEBUG", "0")
        .env_remove("RUSTFLAGS");
    if c.release {
        cmd.arg("--release");
    }
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => return Built::Failed(format!("cargo: {}", e)),
    };
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    if !o.status.success() {
        let rejected = ["barcoders", "probe"].iter().any(|p| err.contains(&format!("could not compile `{}`", p)));
        let brief: String = err
            .lines()
            .skip_while(|l| !l.starts_with("error"))
            .take(12)
            .collect::<Vec<_>>()
            .join(" | ");
        return if rejected && err.contains("error") && o.status.code() == Some(101) {
            Built::Rejected(brief)
        } else {
            Built::Failed(err)
        };
    }
    // Cargo reuses the final name for every combination.
    let from = format!("{}/{}/probe", dir, c.profile());
    let to = format!("{}/probe-{}-{}", dir, c.profile(), c.mask);
    let tmp = format!("{}.{}", to, std::process::id());
    match std::fs::copy(&from, &tmp).and_then(|_| std::fs::rename(&tmp, &to)) {
        Ok(_) => Built::Ok(to.into()),
        Err(e) => Built::Failed(format!("{}: {}", from, e)),
    }
}

type Digests = BTreeMap<(String, usize), String>;

fn probe(bin: &PathBuf, args: &[&str]) -> Result<String, String> {
    let o = Command::new(bin).args(args).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("the workload ends with {:?}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

fn digests(bin: &PathBuf, full: bool) -> Result<(Digests, u64), String> {
    let t = probe(bin, if full { &["full"] } else { &[] })?;
    let mut d = Digests::new();
    let mut n = 0;
    for l in t.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[..] {
            ["inputs", k] => n = k.parse().unwrap_or(0),
            [s, c, h] => {
                d.insert((s.to_string(), c.parse().unwrap_or(0)), h.to_string());
            }
            _ => {}
        }
    }
    Ok((d, n))
}

/// First chunk both have where they disagree, and a section one should have but lacks.
fn difference(a: &Digests, b: &Digests) -> Option<(String, usize)> {
    a.iter().find(|(k, v)| b.get(k).is_some_and(|w| w != *v)).map(|(k, _)| k.clone())
}

/// Sections a configuration must produce.
fn missing(c: Config, d: &Digests) -> Option<&'static str> {
    let on = |f: &str| FEATURES.iter().position(|x| *x == f).is_some_and(|i| c.mask >> i & 1 == 1);
    let has = |s: &str| d.keys().any(|k| k.0 == s);
    ["ascii", "json", "svg"]
        .into_iter()
        .find(|s| on(s) && !has(s))
        .or_else(|| (on("image") && on("std") && !has("image")).then_some("image"))
}

fn explain(a: Config, ba: &PathBuf, b: Config, bb: &PathBuf, at: &(String, usize), full: bool) -> String {
    let chunk = at.1.to_string();
    let mut args = vec!["dump", &at.0, &chunk];
    if full {
        args.push("full");
    }
    let (x, y) = (probe(ba, &args).unwrap_or_default(), probe(bb, &args).unwrap_or_default());
    for (l, m) in x.lines().zip(y.lines()) {
        if l != m {
            return format!(
                "{}: {} gives {}; {} gives {}",
                at.0,
                a.show(),
                l.chars().take(500).collect::<String>(),
                b.show(),
                m.chars().take(500).collect::<String>()
            );
        }
    }
    format!("{} chunk {}: {} and {} differ", at.0, at.1, a.show(), b.show())
}

fn case(a: Config, b: Config, full: bool) -> Case {
    Case::Conf(J::Obj(vec![
        ("configuration".into(), a.to_json()),
        ("against".into(), b.to_json()),
        ("full".into(), J::Bool(full)),
    ]))
}

fn fail(m: &str) -> ! {
    eprintln!("{}", m);
    std::process::exit(2)
}

/// Compares two configurations, rebuilt from the working tree.
pub fn judge(j: &J) -> Result<String, String> {
    let (Some(a), Some(b)) = (
        j.get("configuration").and_then(Config::from_json),
        j.get("against").and_then(Config::from_json),
    ) else {
        fail("configuration case is incomplete")
    };
    let full = j.get("full") == Some(&J::Bool(true));
    let bin = |c: Config| match build(c) {
        Built::Ok(p) => Ok(p),
        Built::Rejected(m) => Err(format!("{} does not compile: {}", c.show(), m)),
        Built::Failed(m) => fail(&m),
    };
    let (ba, bb) = (bin(a)?, bin(b)?);
    let run = |c: Config, p: &PathBuf| digests(p, full).map_err(|m| format!("{}: {}", c.show(), m));
    let ((da, _), (db, _)) = (run(a, &ba)?, run(b, &bb)?);
    for (c, d) in [(a, &da), (b, &db)] {
        if let Some(s) = missing(c, d) {
            return Err(format!("{} has no {} generator", c.show(), s));
        }
    }
    match difference(&da, &db) {
        Some(at) => Err(explain(a, &ba, b, &bb, &at, full)),
        None => Ok(format!("{} chunks agree", da.len())),
    }
}

pub fn explore(ctx: &Ctx) {
    let full = !ctx.quick();
    let mut all: Vec<Config> = vec![];
    for mask in 0..32 {
        for release in [false, true] {
            all.push(Config { mask, release });
        }
    }
    let bins: Mutex<BTreeMap<Config, PathBuf>> = Mutex::new(BTreeMap::new());
    let rejected: Mutex<Vec<(Config, String)>> = Mutex::new(vec![]);
    ctx.par("builds", "32 feature combinations x 2 profiles", 4, 1, |w, lane| {
        // The largest combination first, so that shared dependencies are built once.
        for &c in all.iter().rev().filter(|c| c.lane() == lane) {
            match build(c) {
                Built::Ok(p) => {
                    bins.lock().unwrap().insert(c, p);
                }
                Built::Rejected(m) => rejected.lock().unwrap().push((c, m)),
                Built::Failed(m) => fail(&m),
            }
            w.states += 1;
            w.transitions += 1;
        }
    });
    let bins = bins.into_inner().unwrap();
    let rejected = rejected.into_inner().unwrap();
    let Some(all_bin) = bins.get(&ALL) else {
        fail(&format!("the combination of all features does not build: {:?}", rejected.first()))
    };
    for (c, m) in rejected {
        ctx.violation(case(c, ALL, full), format!("{} does not compile: {}", c.show(), m));
    }
    let want = match digests(all_bin, full) {
        Ok(d) => d,
        Err(m) => {
            ctx.violation(case(ALL, ALL, full), format!("{}: {}", ALL.show(), m));
            return;
        }
    };
    let inputs = AtomicU64::new(0);
    let list: Vec<(&Config, &PathBuf)> = bins.iter().collect();
    ctx.par("workload under every configuration", "digests of every chunk compared with all features, release", list.len(), 1, |w, i| {
        let (&c, bin) = list[i];
        match digests(bin, full) {
            Err(m) => w.ctx.violation(case(c, ALL, full), format!("{}: {}", c.show(), m)),
            Ok((d, n)) => {
                w.states += d.len() as u64;
                w.transitions += n;
                w.execs += n;
                inputs.fetch_add(n, Relaxed);
                if let Some(s) = missing(c, &d) {
                    w.ctx.violation(case(c, ALL, full), format!("{} has no {} generator", c.show(), s));
                }
                if let Some(at) = difference(&d, &want.0) {
                    w.ctx.violation(case(c, ALL, full), explain(c, bin, ALL, all_bin, &at, full));
                }
                if i < 2 {
                    w.ctx.sample(&case(c, ALL, full), &format!("{} inputs, {} digests agree", n, d.len()));
                }
            }
        }
    });
}

/// Builds what every configuration shares, so that a check only rebuilds the crate itself.
pub fn warm() -> i32 {
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = [31u8, 15]
            .iter()
            .flat_map(|&mask| [false, true].map(|release| Config { mask, release }))
            .map(|c| s.spawn(move || matches!(build(c), Built::Ok(_))))
            .collect();
        h.into_iter().all(|t| t.join().unwrap_or(false))
    });
    !ok as i32 * 2
}
