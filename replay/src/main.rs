//! Runs the real cache against the executable reading of its contracts.
#[macro_use]
mod on;
#[macro_use]
mod engine;
mod hist;
mod model;
mod rng;
mod util;
mod world;

engine!(rc, shared: y, dynamic: y, bounds: {});
engine!(arc, shared: y, dynamic: n, bounds: { + Send + Sync });
engine!(boxed, shared: n, dynamic: y, bounds: {});

use hist::*;
use util::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Found {
    /// property -> finding
    by: BTreeMap<String, String>,
    st: Stats,
    hists: u64,
    nontrivial: u64,
    samples: Vec<String>,
}

fn watched(seed: u64, hist: u64) -> (bool, bool) {
    let x = seed ^ hist;
    (cfg!(feature = "diag") && x % 4 != 0, x % 8 < 4)
}

fn search(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let secs = a.num("secs", 10);
    let maxh = a.num("hists", u64::MAX);
    let threads = a.num("threads", 8);
    let first = a.num("first", 0);
    let want: Vec<String> = a.get("stop-on", "").split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let confs: Vec<Conf> = match a.get("conf", "all").as_str() {
        "all" => Conf::all().to_vec(),
        c => vec![Conf::parse(c)],
    };
    let found = Arc::new(Mutex::new(Found::default()));
    let next = Arc::new(AtomicU64::new(first));
    let stop = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let outf = a.get("out", "");
    let prog = a.get("progress", "");
    let progf = if prog.is_empty() { None } else { Some(Arc::new(std::fs::File::create(&prog).expect("progress file"))) };
    // what each thread is at: (history number + 1, milliseconds since t0)
    let at: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let hs: Vec<_> = (0..threads as usize)
        .map(|t| {
            let (found, next, stop, at, confs, want) = (found.clone(), next.clone(), stop.clone(), at.clone(), confs.clone(), want.clone());
            let (outf, progf) = (outf.clone(), progf.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    let (mut n, mut nontrivial) = (0u64, 0u64);
                    let mut samples = vec![];
                    while !stop.load(SeqCst) && t0.elapsed() < Duration::from_secs(secs) {
                        let h = next.fetch_add(1, SeqCst);
                        if h >= first.saturating_add(maxh) {
                            break;
                        }
                        at[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                        at[t].0.store(h + 1, SeqCst);
                        if let Some(f) = &progf {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&(h + 1).to_le_bytes(), 8 * t as u64);
                        }
                        let conf = confs[(h % confs.len() as u64) as usize];
                        let ops = generate(conf, seed, h);
                        let (wd, df) = watched(seed, h);
                        let (b, d0) = (st.builds, st.dropped + st.collected + st.failed);
                        let v = run(conf, &ops, wd, df, &mut st);
                        n += 1;
                        if st.builds - b >= 2 && st.dropped + st.collected + st.failed > d0 {
                            nontrivial += 1;
                        }
                        if samples.is_empty() && t == 0 && n == 5 {
                            samples.push(format!("{} {:?}", conf.name(), &ops[..ops.len().min(14)]));
                        }
                        if let Some(v) = v {
                            // shrink once for each property not seen yet
                            for p in v.props.iter() {
                                if found.lock().unwrap().by.contains_key(*p) {
                                    continue;
                                }
                                at[t].1.store(t0.elapsed().as_millis() as u64 + 30_000, SeqCst);
                                let (ops, v) = shrink(conf, ops.clone(), wd, df, p);
                                let mut props = v.props.clone();
                                props.extend(needed(&ops));
                                let rec = format!(
                                    "{{\"conf\":{},\"seed\":{},\"hist\":{},\"watched\":{},\"dflt\":{},\"what\":{},\"at\":{},\"op\":{},\"ops\":{},\"props\":{}}}",
                                    esc(conf.name()), seed, h, wd, df, esc(&v.what), v.at, esc(&v.op),
                                    list(ops.iter(), |o| esc(&format!("{:?}", o))),
                                    list(props.iter(), |p| esc(p))
                                );
                                let mut f = found.lock().unwrap();
                                for q in &props {
                                    f.by.entry(q.to_string()).or_insert_with(|| rec.clone());
                                }
                                if !outf.is_empty() {
                                    let _ = std::fs::write(&outf, format!("{{{}}}", f.by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
                                }
                            }
                            let f = found.lock().unwrap();
                            if !want.is_empty() && want.iter().all(|p| f.by.contains_key(p)) {
                                stop.store(true, SeqCst);
                            }
                        }
                        at[t].0.store(0, SeqCst);
                    }
                    at[t].0.store(0, SeqCst);
                    let mut f = found.lock().unwrap();
                    f.hists += n;
                    f.nontrivial += nontrivial;
                    f.samples.extend(samples);
                    f.st.ops += st.ops;
                    f.st.builds += st.builds;
                    f.st.failed += st.failed;
                    f.st.hits += st.hits;
                    f.st.dropped += st.dropped;
                    f.st.collected += st.collected;
                    f.st.deepest = f.st.deepest.max(st.deepest);
                })
                .unwrap()
        })
        .collect();
    // watchdog
    let mut hung: BTreeMap<usize, (u64, Instant)> = BTreeMap::new();
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().enumerate().all(|(t, h)| h.is_finished() || hung.contains_key(&t)) {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for (t, s) in at.iter().enumerate() {
            let (h, since) = (s.0.load(SeqCst), s.1.load(SeqCst));
            if h > 0 && now > since + 5_000 && !hung.contains_key(&t) {
                hung.insert(t, (h - 1, Instant::now()));
            }
        }
        if hung.values().any(|x| x.1.elapsed() > Duration::from_secs(2)) {
            break;
        }
    }
    let hangs: Vec<u64> = hung.values().map(|x| x.0).collect();
    let mut out = String::from("{\"findings\":{");
    let f = match found.lock() { Ok(f) => f, Err(e) => e.into_inner() };
    out.push_str(&f.by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    out.push_str(&format!(
        "}},\"hists\":{},\"nontrivial\":{},\"ops\":{},\"builds\":{},\"failed\":{},\"hits\":{},\"invalidating\":{},\"collecting\":{},\"deepest\":{},\"hangs\":{:?},\"secs\":{:.2},\"samples\":{}}}",
        f.hists, f.nontrivial, f.st.ops, f.st.builds, f.st.failed, f.st.hits, f.st.dropped, f.st.collected, f.st.deepest, hangs,
        t0.elapsed().as_secs_f64(), list(f.samples.iter(), |s| esc(s))
    ));
    println!("{}", out);
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

/// Executes one history again (`--hist`, `--seed`, `--conf`), shrunk for `--prop`.
fn replay(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let h = a.num("hist", 0);
    let confs = Conf::all();
    let conf = match a.get("conf", "").as_str() {
        "" => confs[(h % 3) as usize],
        c => Conf::parse(c),
    };
    let (wd, df) = watched(seed, h);
    let mut ops = generate(conf, seed, h);
    if a.get("announce", "") == "1" {
        // tells each operation before it is executed
        announce(true);
        let mut st = Stats::default();
        let v = run(conf, &ops, wd, df, &mut st);
        println!("{{\"end\":{}}}", v.is_none());
        return 0;
    }
    let mut st = Stats::default();
    let mut v = run(conf, &ops, wd, df, &mut st);
    let p = a.get("prop", "");
    if let Some(x) = &v {
        let t = if x.props.contains(p.as_str()) { p.as_str() } else { x.props.iter().next().unwrap() };
        let t = t.to_string();
        let (o, y) = shrink(conf, ops, wd, df, &t);
        ops = o;
        v = Some(y);
    }
    println!("container {}, recording doctor {}", conf.name(), wd);
    for (i, o) in ops.iter().enumerate() {
        println!("{:3} {:?}", i, o);
    }
    match v {
        Some(v) => {
            println!("FAILS at operation {}: {} (properties {:?})", v.at, v.what, v.props);
            1
        }
        None => {
            println!("no difference");
            0
        }
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = BTreeMap::new();
    while let Some(k) = it.next() {
        a.insert(k.trim_start_matches('-').to_string(), it.next().unwrap_or_default());
    }
    let a = Args(a);
    if a.get("loud", "") != "1" {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let c = match cmd.as_str() {
        "search" => search(&a),
        "replay" => replay(&a),
        _ => panic!("unknown command"),
    };
    std::process::exit(c);
}
