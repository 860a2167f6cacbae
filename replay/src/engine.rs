//! The real cache under test, for one container each.
use crate::model::{Op, Ret, Key};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Probe {
    pub known: bool,
    pub art: Option<(u64, u64)>,
    pub dy: Option<(u64, u64)>,
}

pub trait Sut {
    /// Executes one operation; the ones a container does not offer are replaced as in `adapt`.
    fn exec(&mut self, op: &Op) -> Ret;
    fn probe(&self, k: Key) -> Probe;
    fn num(&self) -> usize;
    /// Checks identity facts of all builders that are still held, returns what is wrong.
    fn identities(&self) -> Option<String>;
}

#[macro_export]
macro_rules! engine {
    ($m:ident, shared: $sh:tt, dynamic: $dy:tt, bounds: { $($bd:tt)* }) => {
        pub mod $m {
            use $crate::engine::*;
            use $crate::model::*;
            use $crate::world::{serial, try_w, w};
            #[cfg(feature = "diag")]
            use $crate::world::key_of;

            use std::cell::RefCell;
            use std::collections::BTreeMap;
            use daab::blueprint::Promise as _;
            use daab::$m as dm;

            #[derive(Debug)]
            pub struct Art<const K: u8> { pub key: Key, pub serial: u64, pub val: u64, pub stash: Vec<Handle> }
            impl<const K: u8> Clone for Art<K> {
                // A clone is the same artifact for our purposes, it just does not count as an instance
                fn clone(&self) -> Self { Art { key: usize::MAX, serial: self.serial, val: self.val, stash: vec![] } }
            }
            impl<const K: u8> Drop for Art<K> {
                fn drop(&mut self) { if self.key != usize::MAX { let s = self.serial; try_w(|w| { w.arts.remove(&s); }) } }
            }
            #[derive(Debug)]
            pub struct St<const K: u8> { pub serial: u64, pub val: u64, pub stash: Vec<Handle> }
            impl<const K: u8> Drop for St<K> {
                fn drop(&mut self) { let s = self.serial; try_w(|w| { w.states.remove(&s); }) }
            }
            #[derive(Debug, Clone, PartialEq)]
            pub struct Er<const K: u8>(pub u64);

            pub struct Node<const K: u8> { pub key: Key, pub holds: Vec<Handle> }
            impl<const K: u8> std::fmt::Debug for Node<K> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Node<{}>", self.key) }
            }
            impl<const K: u8> Drop for Node<K> {
                fn drop(&mut self) { let k = self.key; try_w(|w| { w.nodes.remove(&k); }) }
            }

            #[derive(Clone, Debug)]
            pub enum Handle { A(dm::Blueprint<Node<0>>, Key), B(dm::Blueprint<Node<1>>, Key) }
            impl Handle {
                pub fn key(&self) -> Key { match self { Handle::A(_, k) | Handle::B(_, k) => *k } }
            }
            thread_local! {
                pub static ROOTS: RefCell<BTreeMap<Key, Handle>> = RefCell::new(BTreeMap::new());
            }

            type Res<'a, const K: u8> = dm::Resolver<'a, St<K>>;

            fn take<const K: u8, const L: u8>(r: &mut Res<K>, bp: &dm::Blueprint<Node<L>>, how: u8, dynf: bool) -> Result<(u64, u64), u64>
            {
                let _ = dynf;
                on!($dy, {
                    if dynf {
                        let d = dm::DynamicBlueprint::<Art<L>, Er<L>, St<L>>::from(bp.clone());
                        on!($sh, {
                            if how == 0 { return r.resolve(&d).map(|a| (a.serial, a.val)).map_err(|e| e.0) }
                        } { });
                        if how == 2 { return r.resolve_cloned(&d).map(|a| (a.serial, a.val)).map_err(|e| e.0) }
                        return r.resolve_ref(&d).map(|a| (a.serial, a.val)).map_err(|e| e.0)
                    }
                } { });
                on!($sh, {
                    if how == 0 { return r.resolve(bp).map(|a| (a.serial, a.val)).map_err(|e| e.0) }
                } { });
                if how == 2 { return r.resolve_cloned(bp).map(|a| (a.serial, a.val)).map_err(|e| e.0) }
                r.resolve_ref(bp).map(|a| (a.serial, a.val)).map_err(|e| e.0)
            }

            impl<const K: u8> dm::Builder for Node<K> {
                type Artifact = Art<K>;
                type DynState = St<K>;
                type Err = Er<K>;
                fn build(&self, r: &mut Res<K>) -> Result<dm::BinType<Art<K>>, Er<K>> {
                    let k = self.key;
                    let script = w(|w| { w.trace.push(Ev::Start(k)); w.stack.push(k); w.scripts[k].clone() });
                    { let s = r.my_state(); let (serial, val) = (s.serial, s.val); w(|w| w.trace.push(Ev::Saw { k, serial, val })); }
                    let mut acc = k as u64;
                    let mut stash: Vec<Handle> = vec![];
                    let mut ok = true;
                    for a in script {
                        let mut find = |q: Key| -> Option<Handle> {
                            if let Some(h) = self.holds.iter().find(|h| h.key() == q) { return Some(h.clone()) }
                            if let Some(h) = r.my_state().stash.iter().find(|h| h.key() == q) { return Some(h.clone()) }
                            ROOTS.with(|g| g.borrow().get(&q).cloned())
                        };
                        match a {
                            Act::Res { k: q, how, dynf, prop, again } => {
                                let h = if w(|w| too_deep(&w.stack, q, again)) { None } else { find(q) };
                                let h = match h { Some(h) => h, None => { w(|w| w.trace.push(Ev::Skip { by: k, k: q })); continue } };
                                let res = match &h {
                                    Handle::A(b, _) => take(r, b, how, dynf),
                                    Handle::B(b, _) => take(r, b, how, dynf),
                                };
                                match res {
                                    Ok((serial, val)) => { w(|w| w.trace.push(Ev::Got { by: k, k: q, ok: true, serial, val })); acc = mix(acc, val) }
                                    Err(serial) => {
                                        w(|w| w.trace.push(Ev::Got { by: k, k: q, ok: false, serial, val: 0 }));
                                        if prop { ok = false; break }
                                        acc = mix(acc, 7)
                                    }
                                }
                            }
                            Act::StAdd(n) => r.my_state().val += n,
                            Act::StStash(q) => if let Some(h) = find(q) { r.my_state().stash.push(h) },
                            Act::StUnstash => r.my_state().stash.clear(),
                            Act::ArStash(q) => if let Some(h) = find(q) { stash.push(h) },
                            Act::Fail => { ok = false; break }
                            Act::FailIf(m) => if r.my_state().val % m == 0 { ok = false; break },
                        }
                    }
                    let val = mix(acc, r.my_state().val);
                    let serial = serial();
                    w(|w| { w.stack.pop(); w.trace.push(Ev::Done { k, ok, serial }); });
                    if ok {
                        w(|w| w.arts.insert(serial, k));
                        Ok(dm::BinType::new(Art { key: k, serial, val, stash }))
                    } else {
                        Err(Er(serial))
                    }
                }
                fn init_dyn_state(&self) -> St<K> {
                    let serial = serial();
                    let k = self.key;
                    w(|w| { w.states.insert(serial, k); w.trace.push(Ev::Init(k, serial)) });
                    St { serial, val: 10 + k as u64, stash: vec![] }
                }
            }

            #[cfg(feature = "diag")]
            pub struct Rec;
            #[cfg(feature = "diag")]
            impl daab::diagnostics::Doctor<dm::CanType, dm::BuilderCan> for Rec {
                fn resolve(&mut self, b: &daab::diagnostics::BuilderHandle<dm::BuilderCan>, u: &daab::diagnostics::BuilderHandle<dm::BuilderCan>) {
                    let e = DocEv::Resolve(bkey(b), bkey(u));
                    w(|w| w.doc.push(e));
                }
                fn build(&mut self, b: &daab::diagnostics::BuilderHandle<dm::BuilderCan>, a: &daab::diagnostics::ArtifactHandle<dm::CanType>) {
                    let s = a.value.downcast_ref::<Art<0>>().map(|a| a.serial).or(a.value.downcast_ref::<Art<1>>().map(|a| a.serial)).unwrap_or(0);
                    if !a.dbg_text.contains(&format!("serial: {},", s)) || !a.type_name.contains("Art<") {
                        let t = format!("artifact handle describes another value: {} {}", a.type_name, a.dbg_text);
                        w(|w| w.notes.push(t));
                    }
                    let e = DocEv::Build(bkey(b), s);
                    w(|w| w.doc.push(e));
                }
                fn clear(&mut self) { w(|w| w.doc.push(DocEv::Clear)) }
                fn invalidate(&mut self, b: &daab::diagnostics::BuilderHandle<dm::BuilderCan>) {
                    let e = DocEv::Invalidate(bkey(b));
                    w(|w| w.doc.push(e));
                }
            }
            #[cfg(feature = "diag")]
            fn bkey(b: &daab::diagnostics::BuilderHandle<dm::BuilderCan>) -> Key {
                let k = key_of(b.id());
                if b.id() != b.id || b.dbg_text != format!("Node<{}>", k) || !(b.type_name.contains("Node<") || b.type_name.contains("dyn ")) {
                    let t = format!("builder handle describes another builder: {} {} {}", k, b.dbg_text, b.type_name);
                    w(|w| w.notes.push(t));
                }
                k
            }

            pub enum AnyCache {
                Plain(dm::CacheOwned),
                #[cfg(feature = "diag")]
                Doc(dm::Cache<Rec>),
            }
            impl AnyCache {
                fn r(&self) -> &dm::Cache {
                    match self {
                        AnyCache::Plain(c) => c,
                        #[cfg(feature = "diag")]
                        AnyCache::Doc(c) => c,
                    }
                }
                fn m(&mut self) -> &mut dm::Cache {
                    match self {
                        AnyCache::Plain(c) => c,
                        #[cfg(feature = "diag")]
                        AnyCache::Doc(c) => c,
                    }
                }
            }

            pub struct Real { pub c: AnyCache }
            impl Real {
                /// `watched`: with a recording doctor.
                pub fn new(watched: bool, dflt: bool) -> Self {
                    ROOTS.with(|g| g.borrow_mut().clear());
                    #[cfg(feature = "diag")]
                    if watched { return Real { c: AnyCache::Doc(dm::Cache::new_with_doctor(Rec)) } }
                    let _ = watched;
                    Real { c: AnyCache::Plain(if dflt { Default::default() } else { dm::CacheOwned::new() }) }
                }
            }
            impl Drop for Real {
                fn drop(&mut self) {
                    let r = ROOTS.with(|g| std::mem::take(&mut *g.borrow_mut()));
                    drop(r);
                }
            }

            fn val<const L: u8>(a: &Art<L>) -> Ret { Ret::Val(a.serial, a.val) }

            fn get<AP, const L: u8>(c: &mut dm::Cache, p: &AP, how: u8, add: u64) -> Ret
                where
                    AP: daab::blueprint::Promise<BCan = dm::BuilderCan>,
                    AP::Builder: daab::Builder<dm::CanType, dm::BuilderCan, Artifact = Art<L>, DynState = St<L>, Err = Er<L>> $($bd)*,
            {
                let _ = add;
                match how {
                    0 => on!($sh, {
                        return match c.get(p) { Ok(a) => val(&a), Err(e) => Ret::Err(e.0) }
                    } { }),
                    2 => return match c.get_cloned(p) { Ok(a) => val(&a), Err(e) => Ret::Err(e.0) },
                    3 => on!($sh, { } {
                        return match c.get_mut(p) {
                            Ok(a) => { let r = val(a); a.val = a.val.wrapping_add(add); r }
                            Err(e) => Ret::Err(e.0),
                        }
                    }),
                    _ => {}
                }
                match c.get_ref(p) { Ok(a) => val(a), Err(e) => Ret::Err(e.0) }
            }
            fn look<AP, const L: u8>(c: &mut dm::Cache, p: &AP, how: u8, add: u64) -> Ret
                where
                    AP: daab::blueprint::Promise<BCan = dm::BuilderCan>,
                    AP::Builder: daab::Builder<dm::CanType, dm::BuilderCan, Artifact = Art<L>, DynState = St<L>, Err = Er<L>> $($bd)*,
            {
                let _ = add;
                match how {
                    0 => on!($sh, {
                        return match c.lookup(p) { Some(a) => val(&a), None => Ret::None }
                    } { }),
                    2 => return match c.lookup_cloned(p) { Some(a) => val(&a), None => Ret::None },
                    3 => on!($sh, { } {
                        return match c.lookup_mut(p) {
                            Some(a) => { let r = val(a); a.val = a.val.wrapping_add(add); r }
                            None => Ret::None,
                        }
                    }),
                    _ => {}
                }
                match c.lookup_ref(p) { Some(a) => val(a), None => Ret::None }
            }
            fn other<AP, const L: u8>(c: &mut dm::Cache, p: &AP, op: &Op) -> Ret
                where
                    AP: daab::blueprint::Promise<BCan = dm::BuilderCan>,
                    AP::Builder: daab::Builder<dm::CanType, dm::BuilderCan, Artifact = Art<L>, DynState = St<L>, Err = Er<L>> $($bd)*,
            {
                match op {
                    Op::Get { how, add, .. } => get(c, p, *how, *add),
                    Op::Look { how, add, .. } => look(c, p, *how, *add),
                    Op::Dyn(_) => { let s = c.dyn_state(p); Ret::Val(s.serial, s.val) }
                    Op::DynMut(_, n) => { let s = c.dyn_state_mut(p); let r = Ret::Val(s.serial, s.val); s.val += n; r }
                    Op::GetDyn(_) => match c.get_dyn_state(p) { Some(s) => Ret::Val(s.serial, s.val), None => Ret::None },
                    Op::Invalidate(_) => { c.invalidate(p); Ret::Unit }
                    Op::Purge(_) => { c.purge(p); Ret::Unit }
                    _ => unreachable!(),
                }
            }
            fn prb<const L: u8>(c: &dm::Cache, p: &dm::Blueprint<Node<L>>) -> Probe {
                Probe {
                    known: c.is_builder_known(p),
                    art: c.lookup_ref(p).map(|a| (a.serial, a.val)),
                    dy: c.get_dyn_state(p).map(|s| (s.serial, s.val)),
                }
            }

            impl Sut for Real {
                fn exec(&mut self, op: &Op) -> Ret {
                    match op {
                        Op::New { kind, holds, script } => {
                            let hs: Vec<Handle> = ROOTS.with(|g| holds.iter().map(|k| g.borrow()[k].clone()).collect());
                            let key = w(|w| { w.scripts.push(script.clone()); w.nodes.insert(w.scripts.len() - 1); w.scripts.len() - 1 });
                            let h = if *kind == 0 {
                                Handle::A(dm::Blueprint::new(Node { key, holds: hs }), key)
                            } else {
                                Handle::B(dm::Blueprint::new(Node { key, holds: hs }), key)
                            };
                            let id = match &h { Handle::A(b, _) => b.id(), Handle::B(b, _) => b.id() };
                            w(|w| w.ids.push((id, key)));
                            ROOTS.with(|g| g.borrow_mut().insert(key, h));
                            Ret::Unit
                        }
                        Op::Drop(k) => { let h = ROOTS.with(|g| g.borrow_mut().remove(k)); drop(h); Ret::Unit }
                        Op::Script(k, s) => { w(|w| w.scripts[*k] = s.clone()); Ret::Unit }
                        Op::ClearArts => { self.c.m().clear_artifacts(); Ret::Unit }
                        Op::ClearAll => { self.c.m().clear_all(); Ret::Unit }
                        Op::Gc => { self.c.m().garbage_collection(); Ret::Unit }
                        Op::Get { k, .. } | Op::Look { k, .. } | Op::Dyn(k) | Op::DynMut(k, _) | Op::GetDyn(k) | Op::Invalidate(k) | Op::Purge(k) => {
                            let dynf = matches!(op, Op::Get { dynf: true, .. } | Op::Look { dynf: true, .. });
                            let _ = dynf;
                            let h = ROOTS.with(|g| g.borrow()[k].clone());
                            let c = self.c.m();
                            on!($dy, {
                                if dynf {
                                    return match h {
                                        Handle::A(b, _) => other(c, &dm::DynamicBlueprint::<Art<0>, Er<0>, St<0>>::from(b), op),
                                        Handle::B(b, _) => other(c, &dm::DynamicBlueprint::<Art<1>, Er<1>, St<1>>::from(b), op),
                                    }
                                }
                            } { });
                            match h {
                                Handle::A(b, _) => other(c, &b, op),
                                Handle::B(b, _) => other(c, &b, op),
                            }
                        }
                    }
                }
                fn probe(&self, k: Key) -> Probe {
                    let h = ROOTS.with(|g| g.borrow()[&k].clone());
                    match h { Handle::A(b, _) => prb(self.c.r(), &b), Handle::B(b, _) => prb(self.c.r(), &b) }
                }
                fn num(&self) -> usize { self.c.r().number_of_known_builders() }
                fn identities(&self) -> Option<String> {
                    let hs: Vec<Handle> = ROOTS.with(|g| g.borrow().values().cloned().collect());
                    let mut seen: BTreeMap<daab::BuilderId, Key> = BTreeMap::new();
                    for h in &hs {
                        let id = match h { Handle::A(b, _) => b.id(), Handle::B(b, _) => b.id() };
                        if let Some(o) = seen.insert(id, h.key()) { return Some(format!("builders {} and {} have the same id", o, h.key())) }
                        on!($dy, {
                            let d = match h {
                                Handle::A(b, _) => dm::DynamicBlueprint::<Art<0>, Er<0>, St<0>>::from(b.clone()).id(),
                                Handle::B(b, _) => dm::DynamicBlueprint::<Art<1>, Er<1>, St<1>>::from(b.clone()).id(),
                            };
                            if d != id { return Some(format!("dynamic blueprint of builder {} has another id", h.key())) }
                        } { });
                    }
                    None
                }
            }
        }
    };
}
