//! Exhaustive exploration driver: work distribution, counting, violation capture, replay artefacts.

use crate::case::Case;
use crate::json::J;
use crate::refs::Sym;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const THREADS: usize = 8;
const SLOT: usize = 1 << 20;

/// Shared-memory slots naming the case each worker is executing; the supervisor reads them if this
/// process dies or hangs, and replays the cases named there.
pub struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn map(path: &str, create: bool) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(false)
            .open(path)
            .expect("slot file");
        let len = SLOT * (THREADS + 1);
        f.set_len(len as u64).expect("slot file size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap slot file");
        Slots { base: p as *mut u8 }
    }
    fn state(&self, i: usize) -> &AtomicU32 {
        unsafe { &*(self.base.add(i * SLOT) as *const AtomicU32) }
    }
    fn set(&self, i: usize, tag: u8, a: u8, b: u8, body: &[u8]) {
        unsafe {
            let p = self.base.add(i * SLOT);
            let n = if body.len() + 16 > SLOT { 0 } else { body.len() };
            *(p.add(4) as *mut u32) = n as u32;
            *p.add(8) = if n == body.len() { tag } else { b'?' };
            *p.add(9) = a;
            *p.add(10) = b;
            std::ptr::copy_nonoverlapping(body.as_ptr(), p.add(16), n);
        }
        self.state(i).store(1, Release);
    }
    fn clear(&self, i: usize) {
        self.state(i).store(0, Release);
    }
    /// Cases in flight.
    pub fn busy(&self) -> Vec<Case> {
        let mut out = vec![];
        for i in 0..THREADS + 1 {
            if self.state(i).load(Acquire) == 0 {
                continue;
            }
            unsafe {
                let p = self.base.add(i * SLOT);
                let n = *(p.add(4) as *const u32) as usize;
                let body = std::slice::from_raw_parts(p.add(16), n.min(SLOT - 16));
                let text = String::from_utf8_lossy(body).to_string();
                match *p.add(8) {
                    b'S' => {
                        if let Some(&sym) = crate::refs::ALL.get(*p.add(9) as usize) {
                            out.push(Case::Sym {
                                sym,
                                via: *p.add(10),
                                data: text,
                            });
                        }
                    }
                    b'J' => {
                        if let Some(c) = crate::json::parse(&text).ok().and_then(|j| Case::from_json(&j)) {
                            out.push(c);
                        }
                    }
                    _ => {}
                }
            }
        }
        out
    }
}

#[derive(Default, Clone)]
pub struct Family {
    pub name: String,
    pub bound: String,
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub secs: f64,
    pub capped: bool,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub start: Instant,
    pub deadline: Instant,
    pub slots: Slots,
    ticks: Vec<AtomicU64>,
    pub stop: AtomicBool,
    pub viol: Mutex<Vec<(Case, String)>>,
    pub fams: Mutex<Vec<Family>>,
    pub samples: Mutex<Vec<J>>,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub extra: Mutex<Vec<(String, J)>>,
}

pub struct Worker<'a> {
    pub ctx: &'a Ctx,
    pub id: usize,
    pub a: Vec<u8>,
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    tick: u64,
    /// [valid accepted, invalid rejected, unspecified, skipped]
    pub out: [u64; 4],
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, slots: Slots) -> Ctx {
        let secs = match tier {
            Tier::Quick => 420,
            Tier::Thorough => 3 * 3600,
        };
        Ctx {
            prop: prop.to_string(),
            tier,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(secs),
            slots,
            ticks: (0..THREADS + 1).map(|_| AtomicU64::new(0)).collect(),
            stop: AtomicBool::new(false),
            viol: Mutex::new(vec![]),
            fams: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(vec![]),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// quick or thorough value
    pub fn qt<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn sample(&self, c: &Case, got: &str) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(J::Obj(vec![
                ("case".into(), c.to_json()),
                ("observed".into(), J::s(got)),
            ]));
        }
    }
    pub fn violation(&self, c: Case, msg: String) {
        let mut v = self.viol.lock().unwrap();
        if v.len() < 200 {
            v.push((c, msg));
        }
        self.stop.store(true, Relaxed);
    }

    /// Detects code under test that does not return. Runs for the life of the process.
    pub fn watchdog(&self) {
        let mut last: Vec<(u64, Instant)> =
            (0..THREADS + 1).map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..THREADS + 1 {
                let t = self.ticks[i].load(Relaxed);
                if t != last[i].0 || self.slots.state(i).load(Relaxed) == 0 {
                    last[i] = (t, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(40) {
                    eprintln!("worker {} has been in one call for 40 s", i);
                    unsafe { libc::_exit(43) };
                }
            }
        }
    }

    /// Runs `f` for every item 0..n on all cores. Stops early on a violation or at the deadline.
    pub fn par<F>(&self, name: &str, bound: &str, n: usize, chunk: usize, f: F)
    where
        F: Fn(&mut Worker, usize) + Sync,
    {
        if self.stop.load(Relaxed) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let capped = AtomicBool::new(false);
        let total = Mutex::new((0u64, 0u64, 0u64));
        std::thread::scope(|s| {
            for id in 0..THREADS {
                let (next, capped, total, f) = (&next, &capped, &total, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker {
                            ctx: self,
                            id,
                            a: vec![],
                            execs: 0,
                            states: 0,
                            transitions: 0,
                            tick: 0,
                            out: [0; 4],
                        };
                        'outer: loop {
                            let i0 = next.fetch_add(chunk, Relaxed);
                            if i0 >= n {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(n) {
                                if self.stop.load(Relaxed) {
                                    break 'outer;
                                }
                                f(&mut w, i);
                            }
                            if Instant::now() > self.deadline {
                                if next.load(Relaxed) < n {
                                    capped.store(true, Relaxed);
                                }
                                break;
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.0 += w.states;
                        t.1 += w.transitions;
                        t.2 += w.execs;
                        let mut o = self.outcomes.lock().unwrap();
                        for (k, v) in ["accepted as required", "rejected as required", "unspecified", "not constrained by this property"]
                            .iter()
                            .zip(w.out)
                        {
                            if v > 0 {
                                *o.entry(k.to_string()).or_default() += v;
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let t = total.into_inner().unwrap();
        let fam = Family {
            name: name.into(),
            bound: bound.into(),
            states: t.0,
            transitions: t.1,
            execs: t.2,
            secs: t0.elapsed().as_secs_f64(),
            capped: capped.load(Relaxed),
        };
        eprintln!(
            "  {:<46} states {:>10} trans {:>10} runs {:>10} {:6.1}s{} [{}]",
            fam.name,
            fam.states,
            fam.transitions,
            fam.execs,
            fam.secs,
            if fam.capped { " CAPPED" } else { "" },
            fam.bound
        );
        self.fams.lock().unwrap().push(fam);
    }

    /// Judges explicit cases one after another.
    pub fn list(&self, name: &str, bound: &str, cases: &[Case]) {
        self.par(name, bound, cases.len(), 1, |w, i| {
            w.states += 1;
            w.transitions += 1;
            w.case(&cases[i]);
        });
    }
}

impl Worker<'_> {
    /// Marks the given case as being executed.
    pub fn enter_sym(&mut self, sym: Sym, via: u8, data: &str) {
        let idx = sym as usize as u8;
        self.ctx.slots.set(self.id, b'S', idx, via, data.as_bytes());
        self.tick += 1;
        self.ctx.ticks[self.id].store(self.tick, Relaxed);
    }
    pub fn enter(&mut self, c: &Case) {
        let t = c.to_json().text();
        self.ctx.slots.set(self.id, b'J', 0, 0, t.as_bytes());
        self.tick += 1;
        self.ctx.ticks[self.id].store(self.tick, Relaxed);
    }
    pub fn leave(&mut self) {
        self.ctx.slots.clear(self.id);
    }
    /// Judges one symbology input under the property's rule.
    pub fn sym(&mut self, sym: Sym, via: u8, data: &str) {
        self.enter_sym(sym, via, data);
        let mut a = std::mem::take(&mut self.a);
        let r = crate::case::judge_sym(&self.ctx.prop, sym, via, data, &mut a, &mut self.out);
        self.a = a;
        self.leave();
        self.execs += 1;
        if let Err(m) = r {
            self.ctx.violation(
                Case::Sym {
                    sym,
                    via,
                    data: data.to_string(),
                },
                m,
            );
        } else if self.execs == 1 && self.id == 0 {
            let got = match crate::imp::encode(sym, via, data) {
                Ok(Ok(b)) => crate::imp::show(&b),
                Ok(Err(e)) => format!("Err({})", crate::imp::errname(e)),
                Err(p) => p,
            };
            self.ctx.sample(
                &Case::Sym {
                    sym,
                    via,
                    data: data.to_string(),
                },
                &got,
            );
        }
    }
    pub fn case(&mut self, c: &Case) {
        self.enter(c);
        let r = crate::case::judge(&self.ctx.prop, c);
        self.leave();
        self.execs += 1;
        match r {
            Err(m) => self.ctx.violation(c.clone(), m),
            Ok(obs) => {
                if self.execs == 1 && self.id == 0 {
                    self.ctx.sample(c, &obs);
                }
            }
        }
    }
}
