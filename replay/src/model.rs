//! The abstract cache: what the contracts say each operation does, executable.
use std::collections::{BTreeMap, BTreeSet};

pub type Key = usize;

/// One step of a builder's build.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// Resolve another builder (`how`: 0 resolve, 1 resolve_ref, 2 resolve_cloned; `dynf`: through a dynamic blueprint;
    /// `again`: also one that is being built, see `too_deep`).
    Res { k: Key, how: u8, dynf: bool, prop: bool, again: bool },
    StAdd(u64),
    StStash(Key),
    StUnstash,
    ArStash(Key),
    Fail,
    FailIf(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New { kind: u8, holds: Vec<Key>, script: Vec<Act> },
    Drop(Key),
    Script(Key, Vec<Act>),
    /// how: 0 get, 1 get_ref, 2 get_cloned, 3 get_mut (adding the given number to the artifact)
    Get { k: Key, how: u8, dynf: bool, add: u64 },
    /// how: 0 lookup, 1 lookup_ref, 2 lookup_cloned, 3 lookup_mut
    Look { k: Key, how: u8, dynf: bool, add: u64 },
    Dyn(Key),
    DynMut(Key, u64),
    GetDyn(Key),
    Invalidate(Key),
    Purge(Key),
    ClearArts,
    ClearAll,
    Gc,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Init(Key, u64),
    Start(Key),
    Saw { k: Key, serial: u64, val: u64 },
    Got { by: Key, k: Key, ok: bool, serial: u64, val: u64 },
    Skip { by: Key, k: Key },
    Done { k: Key, ok: bool, serial: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    /// An artifact (or state): serial and value.
    Val(u64, u64),
    Err(u64),
    None,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DocEv {
    Resolve(Key, Key),
    Build(Key, u64),
    Invalidate(Key),
    Clear,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Cell {
    pub serial: u64,
    pub val: u64,
    pub stash: Vec<Key>,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub kind: u8,
    pub holds: Vec<Key>,
    pub script: Vec<Act>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub roots: BTreeSet<Key>,
    pub arts: BTreeMap<Key, Cell>,
    pub dyns: BTreeMap<Key, Cell>,
    pub known: BTreeSet<Key>,
    /// `(a, b)`: `b` used `a`.
    pub edges: BTreeSet<(Key, Key)>,
    pub serial: u64,
    pub trace: Vec<Ev>,
    pub doc: Vec<DocEv>,
    pub stack: Vec<Key>,
    pub failed: bool,
    pub builds: usize,
    /// While a builder is built, all its artifact stash so far.
    pub tmp: Vec<Vec<Key>>,
}

/// Recursive requests are limited, otherwise the builders themselves would never end.
pub fn too_deep(stack: &[Key], q: Key, again: bool) -> bool {
    stack.contains(&q) && (!again || stack.len() > 4 || stack.iter().filter(|k| **k == q).count() > 1)
}

pub fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(23).wrapping_mul(0xD6E8FEB86659FD93) >> 20
}

impl Model {
    pub fn cone(&self, start: impl IntoIterator<Item = Key>) -> BTreeSet<Key> {
        let mut seen: BTreeSet<Key> = BTreeSet::new();
        let mut todo: Vec<Key> = start.into_iter().collect();
        while let Some(k) = todo.pop() {
            if seen.insert(k) {
                todo.extend(self.edges.range((k, 0)..(k + 1, 0)).map(|e| e.1));
            }
        }
        seen
    }
    fn drop_cone(&mut self, c: &BTreeSet<Key>) {
        for k in c {
            self.arts.remove(k);
        }
        self.edges.retain(|e| !c.contains(&e.1));
    }
    fn below(&self, k: Key) -> BTreeSet<Key> {
        let d: Vec<Key> = self.edges.range((k, 0)..(k + 1, 0)).map(|e| e.1).collect();
        self.cone(d)
    }
    /// The builders that some strong reference exists to.
    pub fn alive(&self) -> BTreeSet<Key> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<Key> = self.roots.iter().copied().collect();
        for c in self.arts.values().chain(self.dyns.values()) {
            todo.extend(&c.stash);
        }
        for t in &self.tmp {
            todo.extend(t);
        }
        while let Some(k) = todo.pop() {
            if seen.insert(k) {
                todo.extend(&self.nodes[k].holds);
            }
        }
        seen
    }
    /// Can the build of `by` get hold of `k`?
    fn obtainable(&self, by: Key, k: Key) -> bool {
        self.nodes[by].holds.contains(&k) || self.dyns.get(&by).map_or(false, |d| d.stash.contains(&k)) || self.roots.contains(&k)
    }
    fn ensure(&mut self, k: Key) {
        self.known.insert(k);
        if !self.dyns.contains_key(&k) {
            self.serial += 1;
            let serial = self.serial;
            self.dyns.insert(k, Cell { serial, val: 10 + k as u64, stash: vec![] });
            self.trace.push(Ev::Init(k, serial));
        }
    }
    fn get(&mut self, k: Key) -> Result<(u64, u64), u64> {
        if let Some(a) = self.arts.get(&k) {
            return Ok((a.serial, a.val));
        }
        self.ensure(k);
        self.trace.push(Ev::Start(k));
        self.builds += 1;
        self.stack.push(k);
        self.tmp.push(vec![]);
        let d = &self.dyns[&k];
        self.trace.push(Ev::Saw { k, serial: d.serial, val: d.val });
        let script = self.nodes[k].script.clone();
        let mut acc = k as u64;
        let mut res = Ok(());
        for a in script {
            match a {
                Act::Res { k: q, how, dynf: _, prop, again } => {
                    if too_deep(&self.stack, q, again) || !self.obtainable(k, q) {
                        self.trace.push(Ev::Skip { by: k, k: q });
                        continue;
                    }
                    let _ = how;
                    self.known.insert(q);
                    self.edges.insert((q, k));
                    self.doc.push(DocEv::Resolve(k, q));
                    let r = self.get(q);
                    match r {
                        Ok((serial, val)) => {
                            self.trace.push(Ev::Got { by: k, k: q, ok: true, serial, val });
                            acc = mix(acc, val);
                        }
                        Err(serial) => {
                            self.trace.push(Ev::Got { by: k, k: q, ok: false, serial, val: 0 });
                            if prop {
                                res = Err(());
                                break;
                            }
                            acc = mix(acc, 7);
                        }
                    }
                }
                Act::StAdd(n) => self.dyns.get_mut(&k).unwrap().val += n,
                Act::StStash(q) => {
                    if self.obtainable(k, q) {
                        self.dyns.get_mut(&k).unwrap().stash.push(q);
                    }
                }
                Act::StUnstash => self.dyns.get_mut(&k).unwrap().stash.clear(),
                Act::ArStash(q) => {
                    if self.obtainable(k, q) {
                        self.tmp.last_mut().unwrap().push(q);
                    }
                }
                Act::Fail => {
                    res = Err(());
                    break;
                }
                Act::FailIf(m) => {
                    if self.dyns[&k].val % m == 0 {
                        res = Err(());
                        break;
                    }
                }
            }
        }
        self.stack.pop();
        let stash = self.tmp.pop().unwrap();
        self.serial += 1;
        let serial = self.serial;
        self.trace.push(Ev::Done { k, ok: res.is_ok(), serial });
        match res {
            Ok(()) => {
                let val = mix(acc, self.dyns[&k].val);
                self.arts.insert(k, Cell { serial, val, stash });
                self.doc.push(DocEv::Build(k, serial));
                Ok((serial, val))
            }
            Err(()) => {
                self.failed = true;
                Err(serial)
            }
        }
    }
    fn invalidate(&mut self, k: Key) {
        let c = self.cone([k]);
        self.drop_cone(&c);
    }
    fn modify(&mut self, k: Key, add: u64) -> Ret {
        let a = self.arts.get_mut(&k).unwrap();
        let r = Ret::Val(a.serial, a.val);
        a.val = a.val.wrapping_add(add);
        r
    }
    /// Is the operation possible at all (only reachable builders can be used)?
    pub fn usable(&self, op: &Op) -> bool {
        let ok = |k: &Key| self.roots.contains(k);
        match op {
            Op::New { holds, .. } => holds.iter().all(ok),
            Op::Drop(k) | Op::Dyn(k) | Op::DynMut(k, _) | Op::GetDyn(k) | Op::Invalidate(k) | Op::Purge(k) => ok(k),
            Op::Get { k, .. } | Op::Look { k, .. } => ok(k),
            Op::Script(k, _) => *k < self.nodes.len(),
            _ => true,
        }
    }
    pub fn exec(&mut self, op: &Op) -> Ret {
        self.trace.clear();
        self.doc.clear();
        self.failed = false;
        self.builds = 0;
        match op {
            Op::New { kind, holds, script } => {
                self.nodes.push(MNode { kind: *kind, holds: holds.clone(), script: script.clone() });
                self.roots.insert(self.nodes.len() - 1);
                Ret::Unit
            }
            Op::Drop(k) => {
                self.roots.remove(k);
                Ret::Unit
            }
            Op::Script(k, s) => {
                self.nodes[*k].script = s.clone();
                Ret::Unit
            }
            Op::Get { k, how, add, .. } => {
                if *how == 3 {
                    let b = self.below(*k);
                    self.drop_cone(&b);
                }
                match self.get(*k) {
                    Ok(_) if *how == 3 => self.modify(*k, *add),
                    Ok((s, v)) => Ret::Val(s, v),
                    Err(e) => Ret::Err(e),
                }
            }
            Op::Look { k, how, add, .. } => {
                if *how == 3 {
                    let b = self.below(*k);
                    self.drop_cone(&b);
                    if self.arts.contains_key(k) {
                        return self.modify(*k, *add);
                    }
                    return Ret::None;
                }
                match self.arts.get(k) {
                    Some(a) => Ret::Val(a.serial, a.val),
                    None => Ret::None,
                }
            }
            Op::Dyn(k) => {
                self.ensure(*k);
                let d = &self.dyns[k];
                Ret::Val(d.serial, d.val)
            }
            Op::DynMut(k, n) => {
                self.invalidate(*k);
                self.ensure(*k);
                self.doc.push(DocEv::Invalidate(*k));
                let d = self.dyns.get_mut(k).unwrap();
                let r = Ret::Val(d.serial, d.val);
                d.val += n;
                r
            }
            Op::GetDyn(k) => match self.dyns.get(k) {
                Some(d) => Ret::Val(d.serial, d.val),
                None => Ret::None,
            },
            Op::Invalidate(k) => {
                self.invalidate(*k);
                self.doc.push(DocEv::Invalidate(*k));
                Ret::Unit
            }
            Op::Purge(k) => {
                self.invalidate(*k);
                self.dyns.remove(k);
                self.known.remove(k);
                self.doc.push(DocEv::Invalidate(*k));
                Ret::Unit
            }
            Op::ClearArts => {
                self.arts.clear();
                self.edges.clear();
                Ret::Unit
            }
            Op::ClearAll => {
                self.arts.clear();
                self.edges.clear();
                self.dyns.clear();
                self.known.clear();
                self.doc.push(DocEv::Clear);
                Ret::Unit
            }
            Op::Gc => {
                self.gc();
                Ret::Unit
            }
        }
    }
    fn gc(&mut self) {
        loop {
            let alive = self.alive();
            let gone: Vec<Key> = self
                .known
                .iter()
                .copied()
                .filter(|k| !alive.contains(k))
                .filter(|k| {
                    // unwanted: no live user and no cycle above it
                    self.cone([*k]).iter().all(|y| !alive.contains(y) && !self.below(*y).contains(y))
                })
                .collect();
            if gone.is_empty() {
                break;
            }
            let c: BTreeSet<Key> = gone.iter().copied().collect();
            self.drop_cone(&c);
            for k in gone {
                self.dyns.remove(&k);
                self.known.remove(&k);
            }
        }
    }
}
