#![allow(dead_code, unused_imports)]
use daab::*;
use daab::rc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// A builder whose dependencies, tolerance and failure are set from outside.
#[derive(Debug, Default)]
struct Inner {
    name: &'static str,
    deps: RefCell<Vec<rc::Blueprint<Node>>>,
    fail: Cell<bool>,
    tolerate: Cell<bool>,
    builds: Cell<u32>,
    cloned: Cell<bool>,
}
#[derive(Debug)]
struct Node(Rc<Inner>);
impl std::ops::Deref for Node {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.0
    }
}
impl rc::Builder for Node {
    type Artifact = (&'static str, u32);
    type DynState = u32;
    type Err = String;
    fn build(&self, r: &mut rc::Resolver<u32>) -> Result<Rc<Self::Artifact>, String> {
        self.builds.set(self.builds.get() + 1);
        *r.my_state() += 1;
        for d in self.deps.borrow().iter() {
            let res = if self.cloned.get() { r.resolve_cloned(d).map(|_| ()) } else { r.resolve(d).map(|_| ()) };
            match res {
                Ok(_) => {}
                Err(_) if self.tolerate.get() => {}
                Err(e) => return Err(e),
            }
        }
        if self.fail.get() {
            return Err(self.name.to_string());
        }
        Ok(Rc::new((self.name, self.builds.get())))
    }
    fn init_dyn_state(&self) -> u32 {
        100
    }
}
type Bp = rc::Blueprint<Node>;
fn node(name: &'static str, deps: &[&Bp]) -> (Bp, Rc<Inner>) {
    let n = Rc::new(Inner { name, deps: RefCell::new(deps.iter().map(|d| (*d).clone()).collect()), ..Default::default() });
    (rc::Blueprint::new(Node(n.clone())), n)
}
