//! Which handles that a doctor is given compare (and hash) as equal.
use crate::rng::Rng;
use crate::suites::Case;
use daab::diagnostics::{ArtifactHandle, BuilderHandle};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub fn case(c: &mut Case) -> Result<(), String> {
    match c.r.below(3) {
        0 => rc::case(c),
        1 => arc::case(c),
        _ => boxed::case(c),
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Compares all pairs; two handles denote the same if they have the same number.
fn pairs<T: Eq + Hash>(c: &mut Case, what: &str, l: &[(usize, T)]) -> Result<(), String> {
    for (i, (a, x)) in l.iter().enumerate() {
        for (j, (b, y)) in l.iter().enumerate() {
            c.check((x == y) == (a == b), || format!("handle {} of {} {} and handle {} of {} {} compare as {}", i, what, a, j, what, b, if x == y { "equal" } else { "different" }))?;
            c.check((x != y) == (a != b), || format!("handle {} of {} {} and handle {} of {} {}: != says {}", i, what, a, j, what, b, x != y))?;
            c.check(a != b || hash(x) == hash(y), || format!("handles {} and {} of {} {} have different hashes", i, j, what, a))?;
        }
    }
    let known: HashSet<&T> = l.iter().map(|x| &x.1).collect();
    let ids: HashSet<usize> = l.iter().map(|x| x.0).collect();
    c.check(known.len() == ids.len(), || format!("a set of the handles of {} {}s has {} elements", ids.len(), what, known.len()))?;
    Ok(())
}

macro_rules! tests {
    ($m:ident, $share:expr) => {
        mod $m {
            use super::*;
            use daab::$m as dm;
            type C = dm::CanType;
            type BC = dm::BuilderCan;

            #[derive(Debug)]
            struct B<const N: usize>(#[allow(dead_code)] [u64; N]);
            impl<const N: usize> dm::Builder for B<N> {
                type Artifact = u64;
                type DynState = ();
                type Err = daab::Never;
                fn build(&self, _: &mut dm::Resolver) -> Result<dm::BinType<u64>, daab::Never> { Ok(dm::BinType::new(0)) }
                fn init_dyn_state(&self) {}
            }
            #[derive(Debug, Clone, PartialEq)]
            struct A<const N: usize>(#[allow(dead_code)] [u64; N]);

            fn builder<const N: usize>(r: &mut Rng, id: usize, l: &mut Vec<(usize, BuilderHandle<BC>)>) {
                // equal values on purpose
                let bp = dm::Blueprint::new(B([7; N]));
                let cl = bp.clone();
                for _ in 0..1 + r.below(3) {
                    l.push((id, BuilderHandle::new(if r.chance(1, 2) { &bp } else { &cl })));
                }
                if r.chance(1, 2) { let h = l[l.len() - 1].1.clone(); l.push((id, h)) }
            }
            fn artifact<const N: usize>(r: &mut Rng, id: usize, l: &mut Vec<(usize, ArtifactHandle<C>)>) {
                let b = dm::BinType::new(A([7; N]));
                let share: fn(&mut Rng, &dm::BinType<A<N>>, usize, &mut Vec<(usize, ArtifactHandle<C>)>) = $share;
                share(r, &b, id, l);
                l.push((id, ArtifactHandle::new::<A<N>>(b)));
            }

            pub fn case(c: &mut Case) -> Result<(), String> {
                let mut r = c.r.clone();
                let mut l = vec![];
                let n = 1 + r.below(5);
                for id in 0..n {
                    match r.below(3) {
                        0 => builder::<0>(&mut r, id, &mut l),
                        1 => builder::<1>(&mut r, id, &mut l),
                        _ => builder::<5>(&mut r, id, &mut l),
                    }
                }
                c.say(format!("{}: handles of {} builders: {:?}", stringify!($m), n, l.iter().map(|x| x.0).collect::<Vec<_>>()));
                pairs(c, "builder", &l)?;
                for (i, x) in l.iter().enumerate() {
                    c.check(l.iter().all(|y| (x.1.id() == y.1.id()) == (x.0 == y.0)), || format!("the ids of the handles do not tell builder {} (handle {}) apart", x.0, i))?;
                }
                let mut l = vec![];
                let n = 1 + r.below(5);
                for id in 0..n {
                    match r.below(3) {
                        0 if stringify!($m) != "boxed" => artifact::<0>(&mut r, id, &mut l),
                        1 => artifact::<5>(&mut r, id, &mut l),
                        _ => artifact::<1>(&mut r, id, &mut l),
                    }
                }
                c.say(format!("{}: handles of {} artifacts: {:?}", stringify!($m), n, l.iter().map(|x| x.0).collect::<Vec<_>>()));
                pairs(c, "artifact", &l)
            }
        }
    };
}

tests!(rc, |r, b, id, l| for _ in 0..r.below(3) { l.push((id, ArtifactHandle::new(b.clone()))) });
tests!(arc, |r, b, id, l| for _ in 0..r.below(3) { l.push((id, ArtifactHandle::new(b.clone()))) });
tests!(boxed, |_, _, _, _| ());
