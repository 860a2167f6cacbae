//! Generation, execution, comparison and shrinking of histories.
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::world::{w, World};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conf {
    Rc,
    Arc,
    Boxed,
}
impl Conf {
    pub fn all() -> [Conf; 3] {
        [Conf::Rc, Conf::Arc, Conf::Boxed]
    }
    pub fn name(self) -> &'static str {
        match self {
            Conf::Rc => "rc",
            Conf::Arc => "arc",
            Conf::Boxed => "boxed",
        }
    }
    pub fn parse(s: &str) -> Conf {
        *Conf::all().iter().find(|c| c.name() == s).expect("conf")
    }
    pub fn mutable(self) -> bool {
        self == Conf::Boxed
    }
}

fn script(r: &mut Rng, m: &Model, me: Key, holds: &[Key], fail: usize, rec: bool) -> Vec<Act> {
    let n = r.below(5);
    let roots: Vec<Key> = m.roots.iter().copied().collect();
    let mut out = vec![];
    let any = |r: &mut Rng| -> Option<Key> {
        if !holds.is_empty() && r.chance(2, 3) {
            Some(holds[r.below(holds.len())])
        } else if !roots.is_empty() {
            Some(roots[r.below(roots.len())])
        } else {
            None
        }
    };
    for _ in 0..n {
        match r.below(12) {
            0..=6 => {
                let q = if rec && r.chance(1, 6) { Some(me) } else { any(r) };
                if let Some(k) = q {
                    if k != me || rec {
                        let again = rec && r.chance(1, 2);
                        out.push(Act::Res { k, how: r.below(3) as u8, dynf: r.chance(1, 4), prop: r.chance(1, 2), again });
                    }
                }
            }
            7 => out.push(Act::StAdd(1 + r.below(3) as u64)),
            8 => {
                if let Some(k) = any(r) {
                    out.push(Act::StStash(k));
                }
            }
            9 => {
                if let Some(k) = any(r) {
                    out.push(Act::ArStash(k));
                }
            }
            10 => out.push(Act::StUnstash),
            _ => {
                if r.chance(fail, 8) {
                    out.push(if r.chance(1, 2) { Act::Fail } else { Act::FailIf(2 + r.below(2) as u64) });
                }
            }
        }
    }
    out
}

/// The operations of a history, determined by the arguments alone.
pub fn generate(conf: Conf, seed: u64, hist: u64) -> Vec<Op> {
    let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hist.wrapping_mul(0x9E3779B97F4A7C15) ^ conf as u64);
    r.next();
    let mut m = Model::default();
    let mut ops = vec![];
    let profile = r.below(6);
    let fail = [1, 6, 2, 0, 3, 2][profile];
    // a few histories are wide (many builders), deep (long chains) or long
    let size = r.below(40);
    let (wide, deep, long) = (size == 0, size == 1, size == 2);
    let n0 = if wide || deep { 20 + r.below(60) } else { 2 + r.below([4, 4, 7, 5, 9, 6][profile]) };
    let len = if long { 200 + r.below(300) } else { 6 + r.below([12, 20, 40, 60, 30, 50][profile]) };
    let limit = if wide || deep { 96 } else { 24 };
    // weights: new drop script get look dyn dynmut getdyn inval purge cleararts clearall gc
    let wts: [usize; 13] = [
        [2, 1, 2, 12, 3, 1, 2, 1, 6, 1, 1, 0, 1],
        [2, 1, 4, 12, 3, 1, 2, 1, 4, 1, 1, 1, 1],
        [4, 8, 3, 12, 1, 1, 1, 1, 2, 1, 1, 0, 6],
        [2, 2, 3, 12, 3, 1, 2, 1, 4, 3, 2, 1, 3],
        [3, 6, 3, 12, 1, 1, 1, 0, 2, 1, 1, 0, 4],
        [4, 6, 4, 12, 2, 1, 1, 1, 3, 3, 2, 1, 4],
    ][profile];
    let tot: usize = wts.iter().sum();
    let chainy = deep || !wide && r.chance(1, 3);
    let rec = r.chance(1, 8);
    let push_new = |r: &mut Rng, m: &mut Model, ops: &mut Vec<Op>| {
        let roots: Vec<Key> = m.roots.iter().copied().collect();
        let mut holds = vec![];
        if chainy {
            if let Some(k) = roots.last() {
                holds.push(*k);
            }
        }
        if wide && !roots.is_empty() && r.chance(1, 2) {
            // one that all use
            holds.push(roots[0]);
        }
        let fan = if wide && r.chance(1, 8) { 40 } else if wide { 6 } else if deep { 1 + r.below(2) } else { 3 };
        for _ in 0..r.below(fan) {
            if !roots.is_empty() {
                let k = roots[r.below(roots.len())];
                if !holds.contains(&k) {
                    holds.push(k);
                }
            }
        }
        let me = m.nodes.len();
        let mut s = script(r, m, me, &holds, fail, rec);
        if r.chance(if wide || deep { 19 } else { 13 }, 20) {
            for k in &holds {
                s.insert(0, Act::Res { k: *k, how: r.below(3) as u8, dynf: r.chance(1, 4), prop: r.chance(1, 2), again: rec && r.chance(1, 2) });
            }
        }
        let op = Op::New { kind: r.below(2) as u8, holds, script: s };
        m.exec(&op);
        ops.push(op);
    };
    for _ in 0..n0 {
        push_new(&mut r, &mut m, &mut ops);
    }
    for _ in 0..len {
        let roots: Vec<Key> = m.roots.iter().copied().collect();
        if roots.is_empty() {
            push_new(&mut r, &mut m, &mut ops);
            continue;
        }
        let k = roots[r.below(roots.len())];
        let mut x = r.below(tot);
        let mut i = 0;
        while x >= wts[i] {
            x -= wts[i];
            i += 1;
        }
        let how = if conf.mutable() && r.chance(1, 4) { 3 } else { r.below(3) as u8 };
        let dynf = r.chance(1, 4);
        let add = r.below(5) as u64;
        let op = match i {
            0 => {
                if m.nodes.len() < limit {
                    push_new(&mut r, &mut m, &mut ops);
                }
                continue;
            }
            1 => Op::Drop(k),
            2 => {
                let k = r.below(m.nodes.len());
                let holds = m.nodes[k].holds.clone();
                let s = script(&mut r, &m, k, &holds, fail, rec);
                Op::Script(k, s)
            }
            3 => Op::Get { k, how, dynf, add },
            4 => Op::Look { k, how, dynf, add },
            5 => Op::Dyn(k),
            6 => Op::DynMut(k, 1 + add),
            7 => Op::GetDyn(k),
            8 => Op::Invalidate(k),
            9 => Op::Purge(k),
            10 => Op::ClearArts,
            11 => Op::ClearAll,
            _ => Op::Gc,
        };
        m.exec(&op);
        ops.push(op);
    }
    ops
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: BTreeSet<&'static str>,
    pub what: String,
    pub at: usize,
    pub op: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: u64,
    pub builds: u64,
    pub failed: u64,
    pub hits: u64,
    pub dropped: u64,
    pub collected: u64,
    pub deepest: usize,
}

fn mk(conf: Conf, watched: bool, dflt: bool) -> Box<dyn Sut> {
    match conf {
        Conf::Rc => Box::new(crate::rc::Real::new(watched, dflt)),
        Conf::Arc => Box::new(crate::arc::Real::new(watched, dflt)),
        Conf::Boxed => Box::new(crate::boxed::Real::new(watched, dflt)),
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

struct Diff {
    v: Vec<(BTreeSet<&'static str>, String)>,
}
impl Diff {
    fn add(&mut self, p: &[&'static str], what: String) {
        self.v.push((p.iter().copied().collect(), what));
    }
}

fn is_get(op: &Op) -> bool {
    matches!(op, Op::Get { .. })
}
fn is_mut(op: &Op) -> bool {
    matches!(op, Op::Get { how: 3, .. } | Op::Look { how: 3, .. })
}
fn is_read(op: &Op) -> bool {
    matches!(op, Op::GetDyn(_)) || (matches!(op, Op::Look { .. }) && !is_mut(op))
}

/// The properties that an unexpected panic (or wrong outcome) of this operation breaks besides C09.
fn primary(op: &Op) -> &'static [&'static str] {
    match op {
        _ if is_mut(op) => &["C12"],
        Op::New { .. } => &["C13"],
        Op::Drop(_) | Op::Script(..) => &[],
        Op::Get { .. } | Op::Look { .. } => &["C01"],
        Op::Dyn(_) | Op::GetDyn(_) => &["C05"],
        Op::DynMut(..) => &["C02", "C05"],
        Op::Invalidate(_) => &["C02"],
        Op::Purge(_) => &["C02", "C11"],
        Op::ClearArts | Op::ClearAll => &["C11"],
        Op::Gc => &["C08"],
    }
}

fn art_class(op: &Op, failed: bool, extra: bool, changed: bool) -> Vec<&'static str> {
    match op {
        _ if is_mut(op) => if failed { vec!["C12", "C06"] } else { vec!["C12"] },
        _ if is_read(op) => vec!["C10", "C01"],
        Op::Get { .. } => {
            if failed {
                vec!["C06"]
            } else {
                vec!["C01"]
            }
        }
        Op::Dyn(_) => vec!["C05"],
        Op::Invalidate(_) => {
            if changed {
                vec!["C01"]
            } else if extra {
                vec!["C02", "C04"]
            } else {
                vec!["C03"]
            }
        }
        Op::DynMut(..) => {
            if extra {
                vec!["C02", "C04", "C05"]
            } else {
                vec!["C03"]
            }
        }
        Op::Purge(_) => {
            if extra {
                vec!["C02", "C04", "C11"]
            } else {
                vec!["C03", "C11"]
            }
        }
        Op::ClearArts | Op::ClearAll => vec!["C11"],
        Op::Gc => vec![if extra { "C08" } else { "C07" }],
        _ => vec!["C01"],
    }
}
fn dyn_class(op: &Op, failed: bool, extra: bool) -> Vec<&'static str> {
    match op {
        Op::Invalidate(_) => vec!["C03", "C05"],
        Op::Purge(_) => {
            if extra {
                vec!["C11", "C10"]
            } else {
                vec!["C03", "C11", "C05"]
            }
        }
        Op::ClearArts => vec!["C11", "C05"],
        Op::ClearAll => vec!["C11"],
        Op::Gc => vec![if extra { "C08" } else { "C07" }],
        _ if is_mut(op) => vec!["C12", "C05"],
        Op::Look { .. } => vec!["C05", "C10", "C01"],
        _ if is_read(op) => vec!["C05", "C10"],
        Op::DynMut(..) if !extra => vec!["C05", "C03"],
        _ if failed => vec!["C05", "C06"],
        _ => vec!["C05"],
    }
}
fn known_class(op: &Op, failed: bool, extra: bool) -> Vec<&'static str> {
    match op {
        Op::Invalidate(_) => {
            if extra {
                vec!["C10"]
            } else {
                vec!["C10", "C03"]
            }
        }
        Op::Purge(_) => {
            if extra {
                vec!["C10", "C11"]
            } else {
                vec!["C10", "C11", "C03"]
            }
        }
        Op::ClearArts | Op::ClearAll => vec!["C10", "C11"],
        Op::Gc => vec!["C10", if extra { "C08" } else { "C07" }],
        Op::Look { .. } => vec!["C10", "C01"],
        Op::DynMut(..) if !extra => vec!["C10", "C03"],
        _ if failed => vec!["C10", "C06"],
        _ => vec!["C10"],
    }
}

static ANNOUNCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn announce(b: bool) {
    ANNOUNCE.store(b, std::sync::atomic::Ordering::SeqCst)
}

/// Executes the history on both sides and reports the first operation after which they differ.
pub fn run(conf: Conf, ops: &[Op], watched: bool, dflt: bool, st: &mut Stats) -> Option<Viol> {
    w(|w| *w = World::default());
    let mut m = Model::default();
    let mut sut = mk(conf, watched, dflt);
    let mut res = None;
    for (at, op) in ops.iter().enumerate() {
        if !m.usable(op) {
            continue;
        }
        if ANNOUNCE.load(std::sync::atomic::Ordering::Relaxed) {
            println!("{{\"at\":{},\"op\":{:?},\"props\":{:?}}}", at, format!("{:?}", op), primary(op));
        }
        let before = m.clone();
        let mret = m.exec(op);
        w(|w| {
            w.trace.clear();
            w.doc.clear();
            w.notes.clear();
            w.stack.clear();
        });
        st.ops += 1;
        st.builds += m.builds as u64;
        st.failed += m.failed as u64;
        let real = catch_unwind(AssertUnwindSafe(|| sut.exec(op)));
        let mut d = Diff { v: vec![] };
        let mut stop = false;
        match real {
            Err(e) => {
                let mut p = vec!["C09"];
                p.extend(primary(op));
                d.add(&p, format!("panicked: {}", panic_msg(e)));
                std::mem::forget(sut);
                res = finish(d, at, op);
                return res;
            }
            Ok(rret) => {
                let checked = catch_unwind(AssertUnwindSafe(|| {
                    let mut d = Diff { v: vec![] };
                    let stop = compare(&mut d, &before, &m, op, &mret, &rret, &*sut, watched);
                    (d, stop)
                }));
                match checked {
                    Ok((dd, s)) => {
                        d = dd;
                        stop = s;
                    }
                    Err(e) => {
                        d.add(&["C09", "C01"], format!("a lookup panicked afterwards: {}", panic_msg(e)));
                        std::mem::forget(sut);
                        return finish(d, at, op);
                    }
                }
            }
        }
        // statistics
        if is_get(op) && m.builds == 0 {
            st.hits += 1;
        }
        if before.arts.len() > m.arts.len() + 1 {
            st.dropped += 1;
        }
        if matches!(op, Op::Gc) && before.known.len() > m.known.len() {
            st.collected += 1;
        }
        st.deepest = st.deepest.max(m.builds);
        if !d.v.is_empty() {
            res = finish(d, at, op);
            break;
        }
        if stop {
            break;
        }
    }
    let r = catch_unwind(AssertUnwindSafe(move || drop(sut)));
    if res.is_none() {
        if let Err(e) = r {
            return Some(Viol { props: ["C09"].into_iter().collect(), what: format!("dropping the cache panicked: {}", panic_msg(e)), at: ops.len(), op: "drop".into() });
        }
    }
    res
}

fn finish(d: Diff, at: usize, op: &Op) -> Option<Viol> {
    let mut props = BTreeSet::new();
    let mut what = vec![];
    for (p, t) in d.v {
        props.extend(p);
        what.push(t);
    }
    if what.is_empty() {
        return None;
    }
    what.truncate(6);
    Some(Viol { props, what: what.join("; "), at, op: format!("{:?}", op) })
}

/// Compares the two sides; returns whether to stop this history without complaint.
fn compare(d: &mut Diff, before: &Model, m: &Model, op: &Op, mret: &Ret, rret: &Ret, sut: &dyn Sut, watched: bool) -> bool {
    let (trace, doc, notes, arts, states, nodes) =
        w(|w| (w.trace.clone(), w.doc.clone(), w.notes.clone(), w.arts.clone(), w.states.clone(), w.nodes.clone()));
    // what the builders saw
    if trace != m.trace {
        let i = trace.iter().zip(&m.trace).take_while(|(a, b)| a == b).count();
        let (r, e) = (trace.get(i), m.trace.get(i));
        let p: Vec<&'static str> = if is_mut(op) {
            vec!["C12"]
        } else if is_read(op) {
            if matches!(op, Op::GetDyn(_)) { vec!["C05"] } else { vec!["C01"] }
        } else {
            match (r, e) {
                (Some(Ev::Init(..)), _) | (_, Some(Ev::Init(..))) => vec!["C05"],
                (Some(Ev::Saw { .. }), Some(Ev::Saw { .. })) => vec!["C05"],
                (Some(Ev::Got { ok: a, .. }), Some(Ev::Got { ok: b, .. })) if *a != *b || !*a => vec!["C06"],
                (Some(Ev::Got { .. }), Some(Ev::Got { .. })) => vec!["C01"],
                // served although it had to be built
                (Some(Ev::Got { .. }), Some(Ev::Start(..))) => vec!["C01", "C04"],
                _ => vec!["C01"],
            }
        };
        d.add(&p, format!("the builders observed {:?} where {:?} was expected (event {})", r, e, i));
    }
    if rret != mret {
        let p: Vec<&'static str> = match op {
            _ if is_mut(op) => vec!["C12"],
            Op::Get { .. } if matches!(mret, Ret::Err(_)) || matches!(rret, Ret::Err(_)) => vec!["C06"],
            Op::Get { .. } | Op::Look { .. } => vec!["C01"],
            Op::Dyn(_) | Op::DynMut(..) | Op::GetDyn(_) => vec!["C05"],
            _ => vec!["C01"],
        };
        d.add(&p, format!("returned {:?} instead of {:?}", rret, mret));
    }
    // instances
    let failed = m.failed;
    let want: BTreeMap<u64, Key> = m.arts.iter().map(|(k, c)| (c.serial, *k)).collect();
    let alive = m.alive();
    let gc = matches!(op, Op::Gc);
    let mut stop = false;
    let mut fewer = 0usize;
    for (s, k) in &arts {
        if !want.contains_key(s) {
            d.add(&art_class(op, failed, true, false), format!("the artifact {} of builder {} still exists", s, k));
        }
    }
    for (s, k) in &want {
        if !arts.contains_key(s) {
            if gc && !alive.contains(k) {
                stop = true;
                continue;
            }
            d.add(&art_class(op, failed, false, false), format!("the artifact {} of builder {} is gone", s, k));
        }
    }
    let want: BTreeMap<u64, Key> = m.dyns.iter().map(|(k, c)| (c.serial, *k)).collect();
    for (s, k) in &states {
        if !want.contains_key(s) {
            d.add(&dyn_class(op, failed, true), format!("the dynamic state {} of builder {} still exists", s, k));
        }
    }
    for (s, k) in &want {
        if !states.contains_key(s) {
            if gc && !alive.contains(k) {
                stop = true;
                fewer += 1;
                continue;
            }
            d.add(&dyn_class(op, failed, false), format!("the dynamic state {} of builder {} is gone", s, k));
        }
    }
    if !stop && d.v.is_empty() && nodes != alive {
        let extra: Vec<_> = nodes.difference(&alive).collect();
        let missing: Vec<_> = alive.difference(&nodes).collect();
        d.add(&["C08"], format!("builders {:?} are still referenced, builders {:?} are not", extra, missing));
    }
    let num = sut.num();
    if num != m.known.len() && !(stop && num + fewer == m.known.len()) {
        d.add(&known_class(op, failed, num > m.known.len()), format!("{} builders known instead of {}", num, m.known.len()));
    }
    // what can be looked up
    for k in &m.roots {
        let p = sut.probe(*k);
        let known = m.known.contains(k);
        if p.known != known {
            let c = if matches!(op, Op::New { .. }) { vec!["C13"] } else { known_class(op, failed, p.known) };
            d.add(&c, format!("builder {} is reported as {}known", k, if p.known { "" } else { "not " }));
        }
        let a = m.arts.get(k).map(|c| (c.serial, c.val));
        if p.art != a {
            let c = match (&p.art, &a) {
                _ if matches!(op, Op::New { .. }) => vec!["C13", "C01"],
                (Some(x), Some(y)) if x.0 == y.0 => if is_mut(op) { vec!["C12"] } else { vec!["C01"] },
                (Some(_), Some(_)) => art_class(op, failed, false, true),
                // the instance check above tells whether it is really gone
                (None, Some(y)) if arts.contains_key(&y.0) => vec!["C01"],
                (None, _) => art_class(op, failed, false, false),
                (Some(_), _) => art_class(op, failed, true, false),
            };
            d.add(&c, format!("looking up builder {} yields {:?} instead of {:?}", k, p.art, a));
        }
        let s = m.dyns.get(k).map(|c| (c.serial, c.val));
        if p.dy != s {
            let c = if matches!(op, Op::New { .. }) { vec!["C13", "C05"] } else { dyn_class(op, failed, p.dy.is_some() && s.is_none()) };
            d.add(&c, format!("the dynamic state of builder {} is {:?} instead of {:?}", k, p.dy, s));
        }
    }
    if matches!(op, Op::New { .. }) {
        if let Some(t) = sut.identities() {
            d.add(&["C13"], t);
        }
    }
    if watched {
        if doc != m.doc {
            d.add(&["C16"], format!("the doctor was told {:?} instead of {:?}", doc, m.doc));
        }
        for n in notes {
            d.add(&["C16"], n);
        }
    }
    let _ = before;
    stop
}

// ---------------------------------------------------------------- shrinking

fn map_script(s: &[Act], f: &dyn Fn(Key) -> Option<Key>) -> Vec<Act> {
    s.iter()
        .filter_map(|a| {
            Some(match a {
                Act::Res { k, how, dynf, prop, again } => Act::Res { k: f(*k)?, how: *how, dynf: *dynf, prop: *prop, again: *again },
                Act::StStash(k) => Act::StStash(f(*k)?),
                Act::ArStash(k) => Act::ArStash(f(*k)?),
                a => a.clone(),
            })
        })
        .collect()
}

/// Removes operation `i`; a removed builder takes everything that mentions it along.
pub fn without(ops: &[Op], i: usize) -> Vec<Op> {
    let gone = if let Op::New { .. } = ops[i] { Some(ops[..i].iter().filter(|o| matches!(o, Op::New { .. })).count()) } else { None };
    let f = |k: Key| match gone {
        Some(g) if k == g => None,
        Some(g) if k > g => Some(k - 1),
        _ => Some(k),
    };
    let mut out = vec![];
    for (j, op) in ops.iter().enumerate() {
        if j == i {
            continue;
        }
        let o = (|| {
            Some(match op {
                Op::New { kind, holds, script } => Op::New { kind: *kind, holds: holds.iter().filter_map(|k| f(*k)).collect(), script: map_script(script, &f) },
                Op::Drop(k) => Op::Drop(f(*k)?),
                Op::Script(k, s) => Op::Script(f(*k)?, map_script(s, &f)),
                Op::Get { k, how, dynf, add } => Op::Get { k: f(*k)?, how: *how, dynf: *dynf, add: *add },
                Op::Look { k, how, dynf, add } => Op::Look { k: f(*k)?, how: *how, dynf: *dynf, add: *add },
                Op::Dyn(k) => Op::Dyn(f(*k)?),
                Op::DynMut(k, n) => Op::DynMut(f(*k)?, *n),
                Op::GetDyn(k) => Op::GetDyn(f(*k)?),
                Op::Invalidate(k) => Op::Invalidate(f(*k)?),
                Op::Purge(k) => Op::Purge(f(*k)?),
                o => o.clone(),
            })
        })();
        out.extend(o);
    }
    out
}

fn simpler(ops: &[Op]) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for i in (0..ops.len()).rev() {
        out.push(without(ops, i));
    }
    for i in 0..ops.len() {
        match &ops[i] {
            Op::New { kind, holds, script } => {
                for j in 0..script.len() {
                    let mut s = script.clone();
                    s.remove(j);
                    let mut o = ops.to_vec();
                    o[i] = Op::New { kind: *kind, holds: holds.clone(), script: s };
                    out.push(o);
                }
                for j in 0..holds.len() {
                    let mut s = holds.clone();
                    s.remove(j);
                    let mut o = ops.to_vec();
                    o[i] = Op::New { kind: *kind, holds: s, script: script.clone() };
                    out.push(o);
                }
                if *kind != 0 {
                    let mut o = ops.to_vec();
                    o[i] = Op::New { kind: 0, holds: holds.clone(), script: script.clone() };
                    out.push(o);
                }
            }
            Op::Script(k, script) => {
                for j in 0..script.len() {
                    let mut s = script.clone();
                    s.remove(j);
                    let mut o = ops.to_vec();
                    o[i] = Op::Script(*k, s);
                    out.push(o);
                }
            }
            _ => {}
        }
    }
    out
}

pub fn shrink(conf: Conf, mut ops: Vec<Op>, watched: bool, dflt: bool, target: &str) -> (Vec<Op>, Viol) {
    let mut st = Stats::default();
    let hits = |o: &[Op], st: &mut Stats| run(conf, o, watched, dflt, st).filter(|v| v.props.contains(target));
    let mut best = hits(&ops, &mut st).expect("shrinking needs a failing history");
    ops.truncate(best.at + 1);
    let mut budget = 4000;
    'again: loop {
        for c in simpler(&ops) {
            budget -= 1;
            if budget == 0 {
                break 'again;
            }
            if let Some(v) = hits(&c, &mut st) {
                ops = c;
                ops.truncate(v.at + 1);
                best = v;
                continue 'again;
            }
        }
        break;
    }
    (ops, best)
}

/// Which further properties a minimal failing history shows to be broken: the operations it cannot do without.
pub fn needed(ops: &[Op]) -> BTreeSet<&'static str> {
    let mut p = BTreeSet::new();
    for (i, op) in ops.iter().enumerate() {
        let last = i + 1 == ops.len();
        match op {
            Op::Purge(_) | Op::ClearArts | Op::ClearAll if !last => {
                p.insert("C11");
            }
            Op::Get { how: 3, .. } | Op::Look { how: 3, .. } if !last => {
                p.insert("C12");
            }
            Op::Gc if !last => {
                p.insert("C07");
            }
            Op::New { script, .. } | Op::Script(_, script) => {
                if script.iter().any(|a| matches!(a, Act::Fail | Act::FailIf(_))) {
                    p.insert("C06");
                }
            }
            _ => {}
        }
    }
    p
}
