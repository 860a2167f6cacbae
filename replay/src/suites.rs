//! Random cases for the parts around the cache: each case is a function of (seed, number).
use crate::rng::Rng;
use crate::util::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One running case: its randomness, what it did so far, what it counted.
pub struct Case {
    pub r: Rng,
    pub log: Vec<String>,
    pub checks: u64,
    pub loud: bool,
}
impl Case {
    pub fn say(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.loud {
            println!("{}", s);
        }
        self.log.push(s);
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
        self.checks += 1;
        if ok { Ok(()) } else { Err(what()) }
    }
}

thread_local! { static SERIAL: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// A number never given before (on this thread).
pub fn serial() -> u64 {
    SERIAL.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}

pub type Suite = fn(&mut Case) -> Result<(), String>;

fn one(f: Suite, seed: u64, n: u64, loud: bool) -> (Case, Result<(), String>) {
    let mut c = Case { r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ n.wrapping_mul(0xD1B54A32D192ED03)), log: vec![], checks: 0, loud };
    c.r.next();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    };
    (c, r)
}

/// Runs the suite for a property, or with `--case` just one case of it.
pub fn run(prop: &str, f: Suite, a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let k = a.get("case", &a.get("hist", ""));
    if !k.is_empty() {
        let announce = a.get("announce", "") == "1";
        let (_, r) = one(f, seed, k.parse().expect("case"), !announce);
        if announce {
            println!("{{\"end\":{}}}", r.is_ok());
            return 0;
        }
        return match r {
            Ok(()) => {
                println!("no difference");
                0
            }
            Err(e) => {
                println!("FAILS: {}", e);
                1
            }
        };
    }
    let secs = a.num("secs", 5);
    let threads = a.num("threads", 8);
    let next = Arc::new(AtomicU64::new(a.num("first", 0)));
    let stop = Arc::new(AtomicBool::new(false));
    // the finding with the shortest log
    let found: Arc<Mutex<Option<(usize, String)>>> = Arc::new(Mutex::new(None));
    let stats = Arc::new(Mutex::new((0u64, 0u64, 0u64, vec![] as Vec<String>)));
    let t0 = Instant::now();
    let at: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| Default::default()).collect());
    let hs: Vec<_> = (0..threads as usize)
        .map(|t| {
            let (next, stop, found, stats, at) = (next.clone(), stop.clone(), found.clone(), stats.clone(), at.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (mut n, mut checks, mut nontrivial, mut sample) = (0, 0, 0, vec![]);
                    let mut after = 0;
                    while !stop.load(SeqCst) && t0.elapsed() < Duration::from_secs(secs) {
                        let h = next.fetch_add(1, SeqCst);
                        at[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                        at[t].0.store(h + 1, SeqCst);
                        let (c, r) = one(f, seed, h, false);
                        n += 1;
                        checks += c.checks;
                        nontrivial += (c.log.len() > 3) as u64;
                        if n == 3 && t == 0 {
                            sample.push(c.log.iter().take(12).cloned().collect::<Vec<_>>().join("; "));
                        }
                        if let Err(e) = r {
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |x| c.log.len() < x.0) {
                                *g = Some((c.log.len(), format!(
                                    "{{\"what\":{},\"seed\":{},\"case\":{},\"ops\":{}}}",
                                    esc(&e), seed, h, list(c.log.iter(), |l| esc(l))
                                )));
                            }
                            after += 1;
                            if after > 200 {
                                stop.store(true, SeqCst);
                            }
                        }
                        at[t].0.store(0, SeqCst);
                    }
                    let mut s = stats.lock().unwrap();
                    s.0 += n;
                    s.1 += checks;
                    s.2 += nontrivial;
                    s.3.extend(sample);
                })
                .unwrap()
        })
        .collect();
    let mut hung: BTreeMap<usize, u64> = BTreeMap::new();
    loop {
        std::thread::sleep(Duration::from_millis(30));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for (t, s) in at.iter().enumerate() {
            let (h, since) = (s.0.load(SeqCst), s.1.load(SeqCst));
            if h > 0 && now > since + 8_000 {
                hung.insert(t, h - 1);
            }
        }
        if !hung.is_empty() && now > secs * 1000 + 8_000 {
            break;
        }
    }
    let g = found.lock().unwrap();
    let by: BTreeMap<&str, &String> = g.iter().map(|x| (prop, &x.1)).collect();
    let s = stats.lock().unwrap();
    println!(
        "{{\"findings\":{{{}}},\"hists\":{},\"nontrivial\":{},\"comparisons\":{},\"hangs\":{:?},\"secs\":{:.2},\"samples\":{}}}",
        by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        s.0, s.2, s.1, hung.values().collect::<Vec<_>>(), t0.elapsed().as_secs_f64(), list(s.3.iter().take(3), |x| esc(x))
    );
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    std::process::exit(0)
}
