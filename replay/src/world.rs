//! What the real builders report while they run (per thread).
use crate::model::{Act, DocEv, Ev, Key};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct World {
    pub scripts: Vec<Vec<Act>>,
    pub trace: Vec<Ev>,
    pub doc: Vec<DocEv>,
    pub stack: Vec<Key>,
    pub serial: u64,
    pub arts: BTreeMap<u64, Key>,
    pub states: BTreeMap<u64, Key>,
    pub nodes: BTreeSet<Key>,
    /// Ids of the builders, as last created.
    pub ids: Vec<(daab::BuilderId, Key)>,
    pub notes: Vec<String>,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn try_w(f: impl FnOnce(&mut World)) {
    let _ = W.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            f(&mut w)
        }
    });
}
pub fn serial() -> u64 {
    w(|w| {
        w.serial += 1;
        w.serial
    })
}
pub fn key_of(id: daab::BuilderId) -> Key {
    w(|w| w.ids.iter().rev().find(|e| e.0 == id).map_or(usize::MAX, |e| e.1))
}
