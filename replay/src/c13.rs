//! Blueprint identity: clones and conversions denote one builder, separately created ones never do.
use crate::suites::Case;

pub fn case(c: &mut Case) -> Result<(), String> {
    match c.r.below(3) {
        0 => rc::case(c),
        1 => arc::case(c),
        _ => boxed::case(c),
    }
}

macro_rules! ident {
    ($m:ident, dynamic: $dy:tt) => {
        mod $m {
            
            use crate::suites::{serial, Case};
            use daab::$m as dm;
            #[cfg(feature = "nightly")]
            use daab::blueprint::BlueprintUnsized;
            use daab::BuilderId;
            use std::collections::hash_map::DefaultHasher;
            use std::collections::BTreeSet;
            use std::hash::{Hash, Hasher};

            #[derive(Debug)]
            pub struct Art { serial: u64, st: u64 }
            #[derive(Debug)]
            pub struct St(u64);
            #[derive(Debug)]
            pub struct Zst;
            #[derive(Debug)]
            pub struct Val(#[allow(dead_code)] u32);
            #[derive(Debug)]
            pub struct Fat(#[allow(dead_code)] [u64; 9]);
            /// Forwards nothing, but uses the artifact of a held blueprint: the holder's own artifact tells which it got.
            #[derive(Debug)]
            pub struct User { held: dm::Blueprint<Zst> }
            macro_rules! leaf { ($t:ty) => {
                impl dm::Builder for $t {
                    type Artifact = Art; type DynState = St; type Err = daab::Never;
                    fn build(&self, r: &mut dm::Resolver<St>) -> Result<dm::BinType<Art>, daab::Never> {
                        Ok(dm::BinType::new(Art { serial: serial(), st: r.my_state().0 }))
                    }
                    fn init_dyn_state(&self) -> St { St(serial()) }
                }
            } }
            leaf!(Zst);
            leaf!(Val);
            leaf!(Fat);
            #[derive(Debug)]
            pub struct Used { serial: u64, st: u64, used: u64, used_st: u64 }
            impl dm::Builder for User {
                type Artifact = Used; type DynState = St; type Err = daab::Never;
                fn build(&self, r: &mut dm::Resolver<St>) -> Result<dm::BinType<Used>, daab::Never> {
                    let (used, used_st) = match r.resolve_ref(&self.held) { Ok(a) => (a.serial, a.st), Err(_) => (0, 0) };
                    Ok(dm::BinType::new(Used { serial: serial(), st: r.my_state().0, used, used_st }))
                }
                fn init_dyn_state(&self) -> St { St(serial()) }
            }

            #[cfg(feature = "nightly")]
            type DynB = dyn daab::Builder<dm::CanType, dm::BuilderCan, Artifact = Art, DynState = St, Err = daab::Never>;

            #[derive(Clone)]
            enum H {
                Z(dm::Blueprint<Zst>),
                V(dm::Blueprint<Val>),
                F(dm::Blueprint<Fat>),
                U(dm::Blueprint<User>),
                #[allow(dead_code)]
                D(Dy),
                #[cfg(feature = "nightly")]
                ZU(dm::BlueprintUnsized<Zst>),
                #[cfg(feature = "nightly")]
                VU(dm::BlueprintUnsized<Val>),
                #[cfg(feature = "nightly")]
                FU(dm::BlueprintUnsized<Fat>),
                #[cfg(feature = "nightly")]
                UU(dm::BlueprintUnsized<User>),
                #[cfg(feature = "nightly")]
                DU(Du),
            }
            on_items!($dy, {
                type Dy = dm::DynamicBlueprint<Art, daab::Never, St>;
                #[cfg(feature = "nightly")]
                type Du = BlueprintUnsized<DynB, dm::BuilderCan>;
            } {
                type Dy = ();
                #[cfg(feature = "nightly")]
                type Du = ();
            });

            macro_rules! all {
                ($h:expr, $x:ident => $e:expr) => {
                    match $h {
                        H::Z($x) => $e, H::V($x) => $e, H::F($x) => $e, H::U($x) => $e,
                        H::D($x) => on_dyn!($x => $e),
                        #[cfg(feature = "nightly")] H::ZU($x) => $e,
                        #[cfg(feature = "nightly")] H::VU($x) => $e,
                        #[cfg(feature = "nightly")] H::FU($x) => $e,
                        #[cfg(feature = "nightly")] H::UU($x) => $e,
                        #[cfg(feature = "nightly")] H::DU($x) => on_dyn!($x => $e),
                    }
                };
            }
            on_items!($dy, {
                macro_rules! on_dyn { ($x:ident => $e:expr) => { $e } }
            } {
                macro_rules! on_dyn { ($x:ident => $e:expr) => { { let _ = $x; unreachable!() } } }
            });

            fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

            impl H {
                fn form(&self) -> &'static str {
                    match self {
                        H::Z(_) => "Blueprint<Zst>", H::V(_) => "Blueprint<Val>", H::F(_) => "Blueprint<Fat>", H::U(_) => "Blueprint<User>", H::D(_) => "DynamicBlueprint",
                        #[cfg(feature = "nightly")] H::ZU(_) => "BlueprintUnsized<Zst>",
                        #[cfg(feature = "nightly")] H::VU(_) => "BlueprintUnsized<Val>",
                        #[cfg(feature = "nightly")] H::FU(_) => "BlueprintUnsized<Fat>",
                        #[cfg(feature = "nightly")] H::UU(_) => "BlueprintUnsized<User>",
                        #[cfg(feature = "nightly")] H::DU(_) => "BlueprintUnsized<dyn Builder>",
                    }
                }
                fn id(&self) -> BuilderId { all!(self, b => b.id()) }
                fn pid(&self) -> BuilderId { all!(self, b => daab::blueprint::Promise::id(b)) }
                fn hash(&self) -> u64 { all!(self, b => hash(b)) }
                fn same(&self, o: &H) -> Option<bool> {
                    Some(match (self, o) {
                        (H::Z(a), H::Z(b)) => a == b, (H::V(a), H::V(b)) => a == b, (H::F(a), H::F(b)) => a == b, (H::U(a), H::U(b)) => a == b,
                        (H::D(a), H::D(b)) => a == b,
                        #[cfg(feature = "nightly")] (H::ZU(a), H::ZU(b)) => a == b,
                        #[cfg(feature = "nightly")] (H::VU(a), H::VU(b)) => a == b,
                        #[cfg(feature = "nightly")] (H::FU(a), H::FU(b)) => a == b,
                        #[cfg(feature = "nightly")] (H::UU(a), H::UU(b)) => a == b,
                        #[cfg(feature = "nightly")] (H::DU(a), H::DU(b)) => a == b,
                        _ => return None,
                    })
                }
                fn convert(self, how: usize) -> H {
                    on!($dy, {
                        #[cfg(feature = "nightly")]
                        {
                            return match (self, how % 5) {
                                (H::Z(b), 0) => H::D(b.into()), (H::V(b), 0) => H::D(b.into()), (H::F(b), 0) => H::D(b.into()),
                                (H::Z(b), 1) => H::ZU(b.into()), (H::V(b), 1) => H::VU(b.into()), (H::F(b), 1) => H::FU(b.into()), (H::U(b), 1) => H::UU(b.into()),
                                (H::Z(b), 2) => H::DU(b.into_unsized()), (H::V(b), 2) => H::DU(b.into_unsized()), (H::F(b), 2) => H::DU(b.into_unsized()),
                                (H::Z(b), 3) => H::DU(b.into()), (H::V(b), 3) => H::DU(b.into()), (H::F(b), 3) => H::DU(b.into()),
                                (H::Z(b), _) => H::DU(BlueprintUnsized::from_sized_bp(b)), (H::V(b), _) => H::DU(BlueprintUnsized::from_sized_bp(b)), (H::F(b), _) => H::DU(BlueprintUnsized::from_sized_bp(b)),
                                (H::ZU(b), 0) => H::DU(b.into()), (H::VU(b), 0) => H::DU(b.into()), (H::FU(b), 0) => H::DU(b.into()),
                                (H::ZU(b), 1) => H::DU(BlueprintUnsized::from_sized(b)), (H::VU(b), 1) => H::DU(BlueprintUnsized::from_sized(b)), (H::FU(b), 1) => H::DU(BlueprintUnsized::from_sized(b)),
                                (H::ZU(b), _) => H::DU(b.into_unsized()), (H::VU(b), _) => H::DU(b.into_unsized()), (H::FU(b), _) => H::DU(b.into_unsized()),
                                (H::D(b), _) => H::DU(b.into_unsized()),
                                (h, _) => h,
                            }
                        }
                        #[cfg(not(feature = "nightly"))]
                        {
                            return match (self, how % 2) {
                                (H::Z(b), 0) => H::D(b.into()), (H::V(b), 0) => H::D(b.into()), (H::F(b), 0) => H::D(b.into()),
                                (H::Z(b), _) => H::D(dm::DynamicBlueprint::from_bp(b)), (H::V(b), _) => H::D(dm::DynamicBlueprint::from_bp(b)), (H::F(b), _) => H::D(dm::DynamicBlueprint::from_bp(b)),
                                (h, _) => h,
                            }
                        }
                    } {
                        let _ = how;
                        #[cfg(feature = "nightly")]
                        {
                            return match self {
                                H::Z(b) => H::ZU(b.into()), H::V(b) => H::VU(b.into()), H::F(b) => H::FU(b.into()), H::U(b) => H::UU(b.into()),
                                h => h,
                            }
                        }
                        #[cfg(not(feature = "nightly"))]
                        return self;
                    })
                }
                fn get(&self, cache: &mut dm::Cache) -> (u64, u64, Option<(u64, u64)>) {
                    match self {
                        H::U(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, Some((a.used, a.used_st))) }
                        #[cfg(feature = "nightly")]
                        H::UU(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, Some((a.used, a.used_st))) }
                        H::Z(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        H::V(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        H::F(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        H::D(b) => on_dyn!(b => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }),
                        #[cfg(feature = "nightly")]
                        H::ZU(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        #[cfg(feature = "nightly")]
                        H::VU(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        #[cfg(feature = "nightly")]
                        H::FU(b) => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }
                        #[cfg(feature = "nightly")]
                        H::DU(b) => on_dyn!(b => { let a = cache.get_ref(b).unwrap(); (a.serial, a.st, None) }),
                    }
                }
                fn look(&self, cache: &dm::Cache) -> Option<u64> {
                    all!(self, b => cache.lookup_ref(b).map(|a| a.serial))
                }
                fn state(&self, cache: &mut dm::Cache) -> u64 { all!(self, b => cache.dyn_state_mut(b).0) }
                fn peek(&self, cache: &dm::Cache) -> Option<u64> { all!(self, b => cache.get_dyn_state(b).map(|s| s.0)) }
                fn known(&self, cache: &dm::Cache) -> bool { all!(self, b => cache.is_builder_known(b)) }
                fn invalidate(&self, cache: &mut dm::Cache) { all!(self, b => cache.invalidate(b)) }
                fn purge(&self, cache: &mut dm::Cache) { all!(self, b => cache.purge(b)) }
            }

            /// What the cache should hold for one builder.
            #[derive(Default, Clone)]
            struct G { art: Option<u64>, st: Option<u64>, uses: Option<usize> }

            /// Many builders alive at once, in memory far apart: none is taken for another one.
            fn crowd(c: &mut Case) -> Result<(), String> {
                let n = 200 + c.r.below(1000);
                c.say(format!("{} {} builders at once", n, stringify!($m)));
                let mut gap: Vec<Vec<u8>> = vec![];
                let mut bps: Vec<dm::Blueprint<Val>> = vec![];
                for i in 0..n {
                    if c.r.chance(1, 20) { gap.push(Vec::with_capacity(16 << c.r.below(20))) }
                    bps.push(dm::Blueprint::new(Val(i as u32 % 3)));
                }
                let mut cache = dm::CacheOwned::new();
                let mut seen = BTreeSet::new();
                for (x, b) in bps.iter().enumerate() {
                    for (y, d) in bps[..x].iter().enumerate() {
                        c.check(b.id() != d.id(), || format!("ids of builders {} and {} are equal", x, y))?;
                        c.check(b != d, || format!("builders {} and {} compare equal", x, y))?;
                    }
                    c.check(*b == b.clone() && b.id() == b.clone().id() && hash(b) == hash(&b.clone()), || format!("builder {} differs from its clone", x))?;
                    let a = cache.get_ref(b).unwrap().serial;
                    c.check(seen.insert(a), || format!("builder {} got the artifact #{} of another one", x, a))?;
                }
                c.check(cache.number_of_known_builders() == n, || format!("{} builders are known", cache.number_of_known_builders()))
            }

            pub fn case(c: &mut Case) -> Result<(), String> {
                if c.r.chance(1, 400) { return crowd(c) }
                let mut cache = dm::CacheOwned::new();
                let mut gs: Vec<G> = vec![];
                let mut hs: Vec<(usize, H)> = vec![];
                let mut seen: BTreeSet<u64> = BTreeSet::new();
                // which groups are still held
                let n = 6 + c.r.below(50);
                for _ in 0..n {
                    let op = c.r.below(16);
                    if hs.is_empty() || op < 3 {
                        let g = gs.len();
                        gs.push(G::default());
                        let k = c.r.below(6);
                        let h = match k {
                            0 => H::Z(dm::Blueprint::new(Zst)),
                            1 => H::V(dm::Blueprint::new(Val(7))),
                            2 => H::F(dm::Blueprint::from(Fat([3; 9]))),
                            3 => {
                                let z = hs.iter().find_map(|(g, h)| match h { H::Z(b) => Some((*g, b.clone())), _ => None });
                                match z {
                                    Some((i, b)) => { gs[g].uses = Some(i); H::U(dm::Blueprint::new(User { held: b })) }
                                    None => H::Z(dm::Blueprint::from(Zst)),
                                }
                            }
                            4 => on!($dy, { if c.r.chance(1, 2) { H::D(dm::DynamicBlueprint::new(Zst)) } else { H::D(dm::DynamicBlueprint::new(Val(7))) } } { H::Z(dm::Blueprint::new(Zst)) }),
                            _ => {
                                #[cfg(feature = "nightly")]
                                { match c.r.below(4) {
                                    0 => H::ZU(dm::BlueprintUnsized::new(Zst)),
                                    1 => H::VU(dm::BlueprintUnsized::from(Val(7))),
                                    2 => on!($dy, { H::DU(BlueprintUnsized::new_unsized(Zst)) } { H::ZU(dm::BlueprintUnsized::from(Zst)) }),
                                    _ => on!($dy, { H::DU(dm::BlueprintUnsized::new(Val(7)).into_unsized()) } { H::FU(dm::BlueprintUnsized::new(Fat([3; 9]))) }),
                                } }
                                #[cfg(not(feature = "nightly"))]
                                H::V(dm::Blueprint::from(Val(7)))
                            }
                        };
                        c.say(format!("{} new builder {}: {}{}", stringify!($m), g, h.form(), gs[g].uses.map_or(String::new(), |u| format!(" using {}", u))));
                        hs.push((g, h));
                    } else {
                        let i = c.r.below(hs.len());
                        let (g, h) = hs[i].clone();
                        match op {
                            3 | 4 => { c.say(format!("clone of builder {} as {}", g, h.form())); hs.push((g, h)); }
                            5 | 6 => {
                                let how = c.r.below(60);
                                let f = h.form();
                                let h = h.convert(how);
                                c.say(format!("builder {}: {} converted to {}", g, f, h.form()));
                                if c.r.chance(1, 2) { hs[i] = (g, h) } else { hs.push((g, h)) }
                            }
                            7 | 8 => { c.say(format!("drop handle {} of builder {}", i, g)); hs.swap_remove(i); drop(h); }
                            9 => { c.say(format!("invalidate {} as {}", g, h.form())); h.invalidate(&mut cache); inval(&mut gs, g) }
                            10 => {
                                c.say(format!("state of {} as {}", g, h.form()));
                                let s = h.state(&mut cache);
                                inval(&mut gs, g);
                                match gs[g].st {
                                    Some(t) => c.check(s == t, || format!("builder {} has dynamic state #{} through one handle and #{} through {}", g, t, s, h.form()))?,
                                    None => { c.check(seen.insert(s), || format!("new builder {} got the dynamic state #{} of another one", g, s))?; gs[g].st = Some(s) }
                                }
                            }
                            11 => { match c.r.below(5) {
                                2 => { c.say("clear_artifacts"); cache.clear_artifacts(); for g in gs.iter_mut() { g.art = None } }
                                0 => { c.say("clear_all"); cache.clear_all(); for g in gs.iter_mut() { g.art = None; g.st = None } }
                                1 => { c.say(format!("purge {}", g)); h.purge(&mut cache); inval(&mut gs, g); gs[g].st = None }
                                _ => { c.say("garbage collection"); cache.garbage_collection() }
                            } }
                            _ => {
                                c.say(format!("get {} as {}", g, h.form()));
                                let before = h.look(&cache);
                                c.check(before == gs[g].art, || format!("lookup of builder {} as {} finds {:?} instead of {:?}", g, h.form(), before, gs[g].art))?;
                                let (a, s, used) = h.get(&mut cache);
                                match gs[g].art {
                                    Some(t) => c.check(a == t, || format!("builder {} has artifact #{} through one handle and #{} through {}", g, t, a, h.form()))?,
                                    None => { c.check(seen.insert(a), || format!("new builder {} got artifact #{} of another one", g, a))?; gs[g].art = Some(a) }
                                }
                                match gs[g].st {
                                    Some(t) => c.check(s == t, || format!("builder {} was built with state #{} instead of #{}", g, s, t))?,
                                    None => { c.check(seen.insert(s), || format!("new builder {} was built with the dynamic state #{} of another one", g, s))?; gs[g].st = Some(s) }
                                }
                                if let (Some((u, us)), Some(d)) = (used, gs[g].uses) {
                                    match gs[d].art {
                                        Some(t) => c.check(u == t, || format!("builder {} got artifact #{} for its clone of {}, which has #{}", g, u, d, t))?,
                                        None => { c.check(seen.insert(u), || format!("builder {} got the old artifact #{} of {}", g, u, d))?; gs[d].art = Some(u) }
                                    }
                                    match gs[d].st {
                                        Some(t) => c.check(us == t, || format!("dependency {} was built with state #{} instead of #{}", d, us, t))?,
                                        None => { c.check(seen.insert(us), || format!("dependency {} was built with another one's state #{}", d, us))?; gs[d].st = Some(us) }
                                    }
                                }
                            }
                        }
                    }
                    // identity of all handles still held
                    for (g, h) in &hs {
                        c.check(h.id() == h.pid(), || format!("{} has two ids", h.form()))?;
                        let (l, p) = (h.look(&cache), h.peek(&cache));
                        c.check(l == gs[*g].art, || format!("builder {} as {}: artifact {:?} instead of {:?}", g, h.form(), l, gs[*g].art))?;
                        c.check(p == gs[*g].st, || format!("builder {} as {}: dynamic state {:?} instead of {:?}", g, h.form(), p, gs[*g].st))?;
                        let k = h.known(&cache);
                        c.check(k || l.is_none() && p.is_none(), || format!("builder {} is unknown but has contents", g))?;
                    }
                    for x in 0..hs.len() {
                        for y in 0..=x {
                            let ((g, a), (k, b)) = (&hs[x], &hs[y]);
                            let same = g == k;
                            c.check((a.id() == b.id()) == same, || format!("ids of builders {} ({}) and {} ({}) are {}equal", g, a.form(), k, b.form(), if same { "un" } else { "" }))?;
                            if let Some(e) = a.same(b) {
                                c.check(e == same, || format!("builders {} and {} ({}) compare {}equal", g, k, a.form(), if same { "un" } else { "" }))?;
                                c.check(a.same(b) == b.same(a), || format!("comparison of {} and {} depends on the order", g, k))?;
                            }
                            if same {
                                c.check(a.hash() == b.hash(), || format!("handles {} and {} of builder {} hash differently", a.form(), b.form(), g))?;
                            }
                        }
                    }
                }
                Ok(())
            }

            fn inval(gs: &mut Vec<G>, g: usize) {
                let dep = gs[g].art.is_some();
                gs[g].art = None;
                if dep {
                    for i in 0..gs.len() {
                        if gs[i].uses == Some(g) && gs[i].art.is_some() { gs[i].art = None }
                    }
                }
            }
        }
    };
}
ident!(rc, dynamic: y);
ident!(arc, dynamic: n);
ident!(boxed, dynamic: y);
