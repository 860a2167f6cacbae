//! The utility builders over every history of their inner builders.
use crate::suites::Case;

pub fn case(c: &mut Case) -> Result<(), String> {
    match c.r.below(3) {
        0 => rc::case(c),
        1 => arc::case(c),
        _ => boxed::case(c),
    }
}

macro_rules! utils {
    ($m:ident, shared: $sh:tt, sync: $sy:tt) => {
        mod $m {
            use crate::rng::Rng;
            use crate::suites::{serial, Case};
            use daab::$m as dm;
            use daab::utils::*;
            use daab::{Never, Unpacking};
            use dm::BinType as Bin;
            use std::cell::{Cell, RefCell};

            type C = dm::CanType;
            type BC = dm::BuilderCan;
            type Cache = dm::CacheOwned;

            /// What an artifact shows of itself.
            #[derive(Debug, Clone, Copy, PartialEq)]
            pub struct View { v: u64, serial: u64, gen: u64, at: usize }
            #[derive(Debug)]
            pub struct Art { v: u64, serial: u64, gen: u64 }
            impl Clone for Art {
                fn clone(&self) -> Art { Art { v: self.v, serial: self.serial, gen: self.gen + 1 } }
            }
            impl Art {
                fn new(v: u64) -> Art { Art { v, serial: serial(), gen: 0 } }
                fn view(&self) -> View { View { v: self.v, serial: self.serial, gen: self.gen, at: self as *const Art as usize } }
            }
            #[derive(Debug, Clone, PartialEq)]
            pub struct Fail(u64);
            trait ErrId { fn id(&self) -> u64; }
            impl ErrId for Fail { fn id(&self) -> u64 { self.0 } }
            impl ErrId for Never { fn id(&self) -> u64 { match *self {} } }

            #[derive(Debug, Clone, Copy)]
            struct Run { node: usize, saw: u64, out: Result<View, u64> }
            thread_local! {
                static RUNS: RefCell<Vec<Run>> = RefCell::new(vec![]);
                static DIED: Cell<bool> = Cell::new(false);
            }
            fn log(node: usize, saw: u64, out: Result<View, u64>) { RUNS.with(|r| r.borrow_mut().push(Run { node, saw, out })) }

            fn produce(node: usize, n: u64, bad: u64) -> Result<Bin<Art>, Fail> {
                if bad != 0 {
                    let s = serial();
                    log(node, n, Err(s));
                    Err(Fail(s))
                } else {
                    let b = Bin::new(Art::new(n * 100 + node as u64));
                    log(node, n, Ok(b.view()));
                    Ok(b)
                }
            }

            /// Fails or not as its state says; the state counts the runs.
            #[derive(Debug)]
            pub struct Src(usize);
            #[derive(Debug, Clone)]
            pub struct St { n: u64, bad: u64 }
            impl dm::Builder for Src {
                type Artifact = Art; type DynState = St; type Err = Fail;
                fn build(&self, r: &mut dm::Resolver<St>) -> Result<Bin<Art>, Fail> {
                    let s = r.my_state();
                    let (n, bad) = (s.n, s.bad);
                    s.n += 1;
                    // in some modes, every other run fails
                    produce(self.0, n, match bad { 2 => n % 2, 3 => (n + 1) % 2, b => b })
                }
                fn init_dyn_state(&self) -> St { St { n: 0, bad: 0 } }
            }
            /// A simplified builder using another one.
            #[derive(Debug)]
            pub struct Sim(usize, dm::Blueprint<dm::ConfigurableBuilder<Art>>);
            impl dm::SimpleBuilder for Sim {
                type Artifact = Art;
                fn build(&self, r: &mut dm::Resolver) -> Art {
                    let v = r.resolve_ref(&self.1).unpack().v;
                    let a = Art::new(v + 7000);
                    log(self.0, v, Ok(View { at: 0, ..a.view() }));
                    a
                }
            }

            #[derive(Debug, Clone, Copy, PartialEq)]
            #[allow(dead_code)]
            enum Kind { Src, Fun, Const, Conf, Sim, Cloned, Pass, Redeem }

            on_items!($sy, {
                trait Ms: Send + Sync {}
                impl<T: ?Sized + Send + Sync> Ms for T {}
            } {
                trait Ms {}
                impl<T: ?Sized> Ms for T {}
            });
            trait Ops {
                fn get(&self, c: &mut Cache, how: usize) -> Result<View, u64>;
                fn cached(&self, c: &Cache) -> Option<View>;
                fn invalidate(&self, c: &mut Cache);
                fn purge(&self, c: &mut Cache);
                fn touch(&self, c: &mut Cache);
            }
            impl<B> Ops for dm::Blueprint<B>
            where B: daab::Builder<C, BC, Artifact = Art> + Ms, B::Err: ErrId {
                fn get(&self, c: &mut Cache, how: usize) -> Result<View, u64> {
                    let x = match how {
                        0 => {
                            let a = c.get_cloned(self).map(|a| a.view()).map_err(|e| e.id())?;
                            let b = c.get_ref(self).map(|b| b.view());
                            if let Ok(b) = &b {
                                assert!(a.serial == b.serial && a.v == b.v, "the clone {:?} is not of {:?}", a, b);
                            }
                            b
                        }
                        1 => on!($sh, { c.get(self).map(|a| a.view()) } { c.get_mut(self).map(|a| a.view()) }),
                        _ => c.get_ref(self).map(|a| a.view()),
                    };
                    x.map_err(|e| e.id())
                }
                fn cached(&self, c: &Cache) -> Option<View> { c.lookup_ref(self).map(|a| a.view()) }
                fn invalidate(&self, c: &mut Cache) { c.invalidate(self) }
                fn purge(&self, c: &mut Cache) { c.purge(self) }
                fn touch(&self, c: &mut Cache) { let _ = c.dyn_state(self); }
            }

            struct Node {
                name: String,
                kind: Kind,
                inner: usize,
                ops: Box<dyn Ops>,
                /// Sets the dynamic state; tells what the model is to hold.
                #[allow(clippy::type_complexity)]
                set: Option<Box<dyn Fn(&mut Cache, &mut Rng) -> (Option<View>, String)>>,
                /// The state a fresh one starts with, for `Const`, `Conf` and `Redeem`.
                init: Option<View>,
                /// The current state of it; for `Fun` the number of its runs.
                now: Option<View>,
                peek: Option<Box<dyn Fn(&Cache) -> Option<Option<View>>>>,
            }

            struct World { nodes: Vec<Node> }
            impl World {
                fn add<B>(&mut self, name: String, kind: Kind, inner: usize, b: &dm::Blueprint<B>, init: Option<View>) -> usize
                where B: daab::Builder<C, BC, Artifact = Art> + Ms + 'static, B::Err: ErrId, dm::Blueprint<B>: Clone {
                    self.nodes.push(Node { name, kind, inner, ops: Box::new(b.clone()), set: None, init, now: init, peek: None });
                    self.nodes.len() - 1
                }
                fn src(&mut self) -> dm::Blueprint<Src> {
                    let n = self.nodes.len();
                    let b = dm::Blueprint::new(Src(n));
                    self.add(format!("Src{}", n), Kind::Src, n, &b, None);
                    let x = b.clone();
                    self.nodes[n].set = Some(Box::new(move |c, r| {
                        let bad = r.below(4) as u64;
                        c.dyn_state_mut(&x).bad = bad;
                        (None, format!("failing mode {}", bad))
                    }));
                    b
                }
                fn konst(&mut self, r: &mut Rng) -> dm::Blueprint<dm::ConstBuilder<Art>> {
                    let n = self.nodes.len();
                    let a = Art::new(r.below(9) as u64);
                    let mut w = a.view();
                    let b: dm::Blueprint<dm::ConstBuilder<Art>> = if r.chance(1, 2) {
                        dm::Blueprint::from(a)
                    } else {
                        let bin = Bin::new(a);
                        w = bin.view();
                        dm::Blueprint::new(ConstBuilder::new(bin))
                    };
                    w.at = 0;
                    self.add(format!("Const{}", n), Kind::Const, n, &b, Some(w));
                    b
                }
                fn conf(&mut self, r: &mut Rng) -> dm::Blueprint<dm::ConfigurableBuilder<Art>> {
                    let n = self.nodes.len();
                    let a = Art::new(r.below(9) as u64);
                    let w = View { at: 0, ..a.view() };
                    let b: dm::Blueprint<dm::ConfigurableBuilder<Art>> = if r.chance(1, 2) { dm::Blueprint::from(a) } else { dm::Blueprint::new(ConfigurableBuilder::new(a)) };
                    self.add(format!("Configurable{}", n), Kind::Conf, n, &b, Some(w));
                    let x = b.clone();
                    self.nodes[n].set = Some(Box::new(move |c, r| {
                        let a = Art::new(r.below(9) as u64 + 10);
                        let w = View { at: 0, ..a.view() };
                        *c.dyn_state_mut(&x) = a;
                        (Some(w), format!("{:?}", w))
                    }));
                    b
                }
                fn cloned<B>(&mut self, i: &dm::Blueprint<B>) -> dm::Blueprint<ClonedBuilder<dm::Blueprint<B>>>
                where B: daab::Builder<C, BC, Artifact = Art> + Ms + 'static, B::Err: ErrId, ClonedBuilder<dm::Blueprint<B>>: daab::Builder<C, BC, Artifact = Art, Err = B::Err>, BC: daab::canning::CanSized<ClonedBuilder<dm::Blueprint<B>>, Bin = dm::BuilderBinType<ClonedBuilder<dm::Blueprint<B>>>> {
                    let inner = self.last();
                    let b = dm::Blueprint::new(ClonedBuilder::new(i.clone()));
                    self.add(format!("Cloned({})", self.nodes[inner].name), Kind::Cloned, inner, &b, None);
                    b
                }
                fn last(&self) -> usize { self.nodes.len() - 1 }
            }
            macro_rules! fun { ($w:expr, $r:expr, $e:ty) => { {
                let w: &mut World = $w;
                let n = w.nodes.len();
                let start = $r.below(3) as u64;
                let never = std::any::TypeId::of::<$e>() == std::any::TypeId::of::<Never>();
                let f = move |s: &mut St| -> Result<Bin<Art>, $e> {
                    let k = s.n;
                    s.n += 1;
                    let bad = if never { 0 } else { match s.bad { 2 => k % 2, b => b } };
                    produce(n, k, bad).map_err(into_err)
                };
                let b = dm::Blueprint::new(daab::utils::FunctionalBuilder::<C, BC, _, Art, St>::with_state(St { n: start, bad: 0 }, f));
                w.add(format!("Functional{}", n), Kind::Fun, n, &b, Some(View { v: start, serial: 0, gen: 0, at: 0 }));
                let x = b.clone();
                w.nodes[n].set = Some(Box::new(move |c, r| {
                    let (bad, k) = (r.below(3) as u64, r.below(50) as u64);
                    *c.dyn_state_mut(&x) = St { n: k, bad };
                    (Some(View { v: k, serial: 0, gen: 0, at: 0 }), format!("failing mode {}, number {}", bad, k))
                }));
                b
            } } }
            trait FromFail { fn from_fail(f: Fail) -> Self; }
            impl FromFail for Fail { fn from_fail(f: Fail) -> Fail { f } }
            impl FromFail for Never { fn from_fail(_: Fail) -> Never { unreachable!() } }
            fn into_err<E: FromFail>(f: Fail) -> E { E::from_fail(f) }

            on_items!($sh, {
                type Opt = Option<Bin<Art>>;
                macro_rules! redeem { ($w:expr, $i:expr, $r:expr) => { {
                    let inner = $w.last();
                    let d: Opt = if $r.chance(1, 2) { Some(Bin::new(Art::new(5000))) } else { None };
                    let b = dm::Blueprint::new(RedeemingBuilder::new($i.clone(), d.clone()));
                    let n = $w.add(format!("Redeeming({}, {})", $w.nodes[inner].name, if d.is_some() { "default" } else { "None" }), Kind::Redeem, inner, &b, d.as_ref().map(|a| a.view()));
                    let (x, y) = (b.clone(), b.clone());
                    $w.nodes[n].set = Some(Box::new(move |c, r| {
                        let d: Opt = if r.chance(3, 4) { Some(Bin::new(Art::new(6000))) } else { None };
                        let w = d.as_ref().map(|a| a.view());
                        *c.dyn_state_mut(&x) = d;
                        (w, format!("{:?}", w))
                    }));
                    $w.nodes[n].peek = Some(Box::new(move |c| c.get_dyn_state(&y).map(|s: &Opt| s.as_ref().map(|a| a.view()))));
                    b
                } } }
                macro_rules! forward { ($w:expr, $i:expr) => { {
                    let inner = $w.last();
                    let b = dm::Blueprint::new(ForwardingBuilder::new($i.clone()));
                    $w.add(format!("Forwarding({})", $w.nodes[inner].name), Kind::Pass, inner, &b, None);
                    b
                } } }
                macro_rules! feign { ($w:expr, $i:expr) => { {
                    let inner = $w.last();
                    let b = dm::Blueprint::new(FeigningBuilder::<_, Fail>::new($i.clone()));
                    $w.add(format!("Feigning({})", $w.nodes[inner].name), Kind::Pass, inner, &b, None);
                    b
                } } }
                fn make(w: &mut World, r: &mut Rng) {
                    match r.below(14) {
                        0 => { let s = w.src(); redeem!(w, s, r); }
                        1 => { let s = w.src(); let x = redeem!(w, s, r); forward!(w, x); }
                        2 => { let s = w.src(); let x = forward!(w, s); redeem!(w, x, r); }
                        3 => { let s = w.src(); let x = redeem!(w, s, r); let y = feign!(w, x); redeem!(w, y, r); }
                        4 => { let s = w.src(); let x = w.cloned(&s); let y = redeem!(w, x, r); w.cloned(&y); }
                        5 => { let s = fun!(w, r, Fail); let x = redeem!(w, s, r); redeem!(w, x, r); }
                        6 => { let s = fun!(w, r, Never); let x = feign!(w, s); forward!(w, x); }
                        7 => { let s = w.konst(r); let x = feign!(w, s); let y = w.cloned(&x); redeem!(w, y, r); }
                        8 => { let s = w.conf(r); let x = feign!(w, s); redeem!(w, x, r); }
                        9 => { let s = w.conf(r); let x = forward!(w, s); redeem!(w, x, r); }
                        _ => basic(w, r),
                    }
                }
            } {
                fn make(w: &mut World, r: &mut Rng) { basic(w, r) }
            });
            fn basic(w: &mut World, r: &mut Rng) {
                match r.below(6) {
                    0 => { let s = w.src(); let x = w.cloned(&s); w.cloned(&x); }
                    1 => { let s = fun!(w, r, Fail); w.cloned(&s); }
                    2 => { let s = fun!(w, r, Never); w.cloned(&s); }
                    3 => { let s = w.konst(r); w.cloned(&s); }
                    4 => { let s = w.conf(r); w.cloned(&s); }
                    _ => {
                        let s = w.conf(r);
                        let inner = w.last();
                        let n = w.nodes.len();
                        let b = dm::Blueprint::new(Sim(n, s));
                        w.add(format!("Simple({})", w.nodes[inner].name), Kind::Sim, inner, &b, None);
                        w.cloned(&b);
                    }
                }
            }

            enum Want { Is(Result<View, u64>), Panic }
            impl World {
                /// What a request to node `i` has to yield, given which were cached before it and the runs since; also takes the model along.
                fn want(&mut self, i: usize, before: &[Option<View>], runs: &[Run]) -> Result<Want, String> {
                    let kind = self.nodes[i].kind;
                    if kind == Kind::Const || kind == Kind::Conf {
                        let w = self.nodes[i].now.unwrap();
                        return Ok(Want::Is(Ok(View { at: before[i].map_or(0, |b| b.at), ..w })));
                    }
                    if let Some(v) = before[i] {
                        return Ok(Want::Is(Ok(v)));
                    }
                    Ok(match kind {
                        Kind::Src | Kind::Fun | Kind::Sim => {
                            let r = match runs.iter().rev().find(|r| r.node == i) { Some(r) => *r, None => return Err(format!("{} was not run", self.nodes[i].name)) };
                            if kind == Kind::Fun {
                                let s = self.nodes[i].now.unwrap().v;
                                if r.saw != s {
                                    return Err(format!("the closure of {} saw {} instead of {} in its state", self.nodes[i].name, r.saw, s));
                                }
                                let m = &mut self.nodes[i];
                                m.now.as_mut().unwrap().v = s + 1;
                            }
                            if kind == Kind::Sim {
                                let j = self.nodes[i].inner;
                                if let Want::Is(Ok(v)) = self.want(j, before, runs)? {
                                    if r.saw != v.v {
                                        return Err(format!("{} saw {} instead of {}", self.nodes[i].name, r.saw, v.v));
                                    }
                                }
                            }
                            Want::Is(r.out)
                        }
                        Kind::Pass => self.want(self.nodes[i].inner, before, runs)?,
                        Kind::Cloned => match self.want(self.nodes[i].inner, before, runs)? {
                            Want::Is(Ok(v)) => Want::Is(Ok(View { gen: v.gen + 1, at: 0, ..v })),
                            w => w,
                        },
                        Kind::Redeem => match self.want(self.nodes[i].inner, before, runs)? {
                            Want::Is(Ok(v)) => {
                                self.nodes[i].now = Some(v);
                                Want::Is(Ok(v))
                            }
                            Want::Is(Err(_)) => match self.nodes[i].now {
                                Some(v) => Want::Is(Ok(v)),
                                None => Want::Panic,
                            },
                            Want::Panic => Want::Panic,
                        },
                        _ => unreachable!(),
                    })
                }
            }

            /// Equal as far as can be said: `at` 0 is unknown, and more clones than needed do no harm.
            fn agrees(w: &View, g: &View, exact: bool) -> bool {
                w.v == g.v && w.serial == g.serial && (w.at == 0 || w.at == g.at) && if exact { w.gen == g.gen } else { w.gen <= g.gen }
            }

            pub fn case(c: &mut Case) -> Result<(), String> {
                RUNS.with(|r| r.borrow_mut().clear());
                DIED.with(|d| d.set(false));
                let mut r = c.r.clone();
                let mut w = World { nodes: vec![] };
                for _ in 0..1 + r.below(3) {
                    make(&mut w, &mut r);
                }
                c.r = r;
                c.say(format!("{}: {}", stringify!($m), w.nodes.iter().enumerate().map(|(i, n)| format!("#{}={}", i, n.name)).collect::<Vec<_>>().join(" ")));
                let mut k: Cache = dm::CacheOwned::new();
                for _ in 0..4 + c.r.below(22) {
                    let i = c.r.below(w.nodes.len());
                    let what = c.r.below(20);
                    match what {
                        0 => { c.say(format!("invalidate #{}", i)); w.nodes[i].ops.invalidate(&mut k) }
                        1 if c.r.chance(1, 3) => {
                            c.say(format!("purge #{}", i));
                            w.nodes[i].ops.purge(&mut k);
                            w.nodes[i].now = w.nodes[i].init;
                        }
                        2 => { c.say("clear_artifacts"); k.clear_artifacts() }
                        3 if c.r.chance(1, 3) => {
                            c.say("clear_all");
                            k.clear_all();
                            for n in &mut w.nodes { n.now = n.init; }
                        }
                        4 => { c.say(format!("dyn_state #{}", i)); w.nodes[i].ops.touch(&mut k) }
                        5..=8 => if let Some(f) = &w.nodes[i].set {
                            let (v, s) = f(&mut k, &mut c.r);
                            c.say(format!("dyn_state_mut #{}: {}", i, s));
                            if w.nodes[i].kind != Kind::Src { w.nodes[i].now = v; }
                        },
                        _ => {
                            let how = c.r.below(3);
                            c.say(format!("get #{} ({})", i, ["cloned and shared", "own", "shared"][how]));
                            let before: Vec<_> = w.nodes.iter().map(|n| n.ops.cached(&k)).collect();
                            RUNS.with(|r| r.borrow_mut().clear());
                            let got = {
                                let (ops, k) = (&w.nodes[i].ops, &mut k);
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops.get(k, how)))
                            };
                            let runs = RUNS.with(|r| r.borrow().clone());
                            let want = w.want(i, &before, &runs)?;
                            let name = w.nodes[i].name.clone();
                            match (want, got) {
                                (Want::Panic, Err(_)) => return Ok(()),
                                (Want::Panic, Ok(g)) => return Err(format!("{} yields {:?} although nothing was kept", name, g)),
                                (_, Err(_)) => return Err(format!("a request to {} panics", name)),
                                (Want::Is(w), Ok(g)) => {
                                    c.say(format!("   gives {:?}", g));
                                    let exact = on!($sh, { true } { false });
                                    let ok = match (&w, &g) { (Ok(a), Ok(b)) => agrees(a, b, exact && no_clone(&name)), (Err(a), Err(b)) => a == b, _ => false };
                                    c.check(ok, || format!("{} yields {:?} instead of {:?}", name, g, w))?;
                                }
                            }
                        }
                    }
                    for n in &w.nodes {
                        if let Some(p) = &n.peek {
                            if let Some(s) = p(&k) {
                                let ok = match (&n.now, &s) { (Some(a), Some(b)) => agrees(a, b, false), (None, None) => true, _ => false };
                                c.check(ok, || format!("{} keeps {:?} instead of {:?}", n.name, s, n.now))?;
                            }
                        }
                    }
                }
                Ok(())
            }
            fn no_clone(name: &str) -> bool { !name.contains("Cloned") && !name.contains("Configurable") }
        }
    };
}

utils!(rc, shared: y, sync: n);
utils!(arc, shared: y, sync: y);
utils!(boxed, shared: n, sync: n);
