//@ raw
// Trusted prelude: std as daab uses it. Every item marked TRUSTED is an assumption (listed in the evidence).
pub mod ax {
use super::*;
#[verifier::external_body] // TRUSTED: BuilderId hashes and compares like the number it is
pub broadcast proof fn bid_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<BuilderId>(),
{ }
}

// ---------------------------------------------------------------- std: maps, sets, vectors, iteration
/// Borrowed view helper of `HashMap` methods vstd has no specification for.
pub trait VMapExt<K, V>: Sized {
    spec fn vm(&self) -> Map<K, V>;
    fn v_get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            !old(self).vm().contains_key(*k) ==> r.is_none() && final(self).vm() == old(self).vm(),
            old(self).vm().contains_key(*k) ==> (r matches Some(v) && *v == old(self).vm()[*k]
                && final(self).vm() == old(self).vm().insert(*k, *final(v)));
}

impl<K: Eq + std::hash::Hash, V> VMapExt<K, V> for HashMap<K, V> {
    open spec fn vm(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] // TRUSTED: std HashMap::get_mut
    fn v_get_mut(&mut self, k: &K) -> (r: Option<&mut V>) { self.get_mut(k) }
}

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) // TRUSTED: std Option::replace
    ensures r == *old(o), *final(o) == Some(v);

/// Indexing `x[i]` as a total function with a precondition (a missing key panics).
pub trait VIndex<I> {
    type Out;
    spec fn vi_has(&self, i: I) -> bool;
    spec fn vi_at(&self, i: I) -> Self::Out;
    fn v_index(&self, i: I) -> (r: &Self::Out)
        requires self.vi_has(i),
        ensures *r == self.vi_at(i);
}

impl<'a, K: Eq + std::hash::Hash, V> VIndex<&'a K> for HashMap<K, V> {
    type Out = V;
    open spec fn vi_has(&self, i: &'a K) -> bool { self@.contains_key(*i) }
    open spec fn vi_at(&self, i: &'a K) -> V { self@[*i] }
    #[verifier::external_body] // TRUSTED: std HashMap::index
    fn v_index(&self, i: &'a K) -> (r: &V) { &self[i] }
}

impl<T> VIndex<usize> for Vec<T> {
    type Out = T;
    open spec fn vi_has(&self, i: usize) -> bool { i < self@.len() }
    open spec fn vi_at(&self, i: usize) -> T { self@[i as int] }
    fn v_index(&self, i: usize) -> (r: &T) { &self[i] }
}

/// An iterator whose remaining items are known as a ghost sequence.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { v: std::collections::VecDeque<T> }

impl<T> VIt<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] // TRUSTED: Iterator::next on a materialised iterator
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
                && final(self).rest() == old(self).rest().drop_first(),
            r.is_none() ==> old(self).rest().len() == 0,
            r matches Some(x) ==> old(self).rest().contains(x),
            r matches Some(x) ==> (old(self).rest().no_duplicates() ==> final(self).rest().no_duplicates() && !final(self).rest().contains(x)),
            forall|y: T| #[trigger] final(self).rest().contains(y) ==> old(self).rest().contains(y),
            forall|y: T| #[trigger] old(self).rest().contains(y) ==> r == Some(y) || final(self).rest().contains(y),
    { self.v.pop_front() }
    #[verifier::external_body] // TRUSTED: collecting an iterator into a Vec
    pub fn v_collect(self) -> (r: Vec<T>)
        ensures r@ == self.rest(),
    { self.v.into() }
    #[verifier::external_body] // TRUSTED: Iterator::count
    pub fn v_count(self) -> (r: usize)
        ensures r as nat == self.rest().len(),
    { self.v.len() }
    pub fn v_into_iter(self) -> (r: VIt<T>)
        ensures r == self,
    { self }
    #[verifier::external_body] // TRUSTED
    pub fn empty() -> (r: VIt<T>)
        ensures r.rest() == Seq::<T>::empty(),
    { VIt { v: std::collections::VecDeque::new() } }
    #[verifier::external_body] // TRUSTED
    pub fn put(&mut self, t: T)
        ensures final(self).rest() == old(self).rest().push(t),
    { self.v.push_back(t) }
}
impl<T> VIt<T> {
    #[verifier::external_body] // TRUSTED: Iterator::any
    pub fn v_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| self.rest().contains(x) ==> f.requires((x,)),
        ensures
            r ==> exists|x: T| #[trigger] self.rest().contains(x) && f.ensures((x,), true),
            !r ==> forall|x: T| #[trigger] self.rest().contains(x) ==> f.ensures((x,), false),
    { self.v.into_iter().any(f) }
    #[verifier::external_body] // TRUSTED: Iterator::all
    pub fn v_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| self.rest().contains(x) ==> f.requires((x,)),
        ensures
            r ==> forall|x: T| #[trigger] self.rest().contains(x) ==> f.ensures((x,), true),
            !r ==> exists|x: T| #[trigger] self.rest().contains(x) && f.ensures((x,), false),
    { self.v.into_iter().all(f) }
}
/// `retain` of sets and maps.
pub trait VRetainSet<K> {
    spec fn vrs_pre<F: Fn(&K) -> bool>(&self, f: F) -> bool;
    fn v_retain1<F: Fn(&K) -> bool>(&mut self, f: F) requires old(self).vrs_pre(f);
}
impl<K: Eq + std::hash::Hash> VRetainSet<K> for HashSet<K> {
    open spec fn vrs_pre<F: Fn(&K) -> bool>(&self, f: F) -> bool { forall|k: &K| f.requires((k,)) }
    #[verifier::external_body] // TRUSTED: HashSet::retain
    fn v_retain1<F: Fn(&K) -> bool>(&mut self, f: F)
        ensures
            forall|k: K| #![trigger old(self)@.contains(k)] #![trigger final(self)@.contains(k)] final(self)@.contains(k) ==> old(self)@.contains(k) && f.ensures((&k,), true),
            forall|k: K| #![trigger old(self)@.contains(k)] #![trigger final(self)@.contains(k)] old(self)@.contains(k) ==> final(self)@.contains(k) || f.ensures((&k,), false),
    { self.retain(|k| f(k)) }
}
pub trait VRetainMap<K, V> {
    spec fn vrm_pre<F: Fn(&K, &V) -> bool>(&self, f: F) -> bool;
    fn v_retain2<F: Fn(&K, &V) -> bool>(&mut self, f: F) requires old(self).vrm_pre(f);
}
impl<K: Eq + std::hash::Hash, V> VRetainMap<K, V> for HashMap<K, V> {
    open spec fn vrm_pre<F: Fn(&K, &V) -> bool>(&self, f: F) -> bool { forall|k: &K, v: &V| f.requires((k, v)) }
    #[verifier::external_body] // TRUSTED: HashMap::retain with a closure that leaves the values as they are
    fn v_retain2<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        ensures
            forall|k: K| #![trigger old(self)@.contains_key(k)] #![trigger final(self)@.contains_key(k)] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k]
                && f.ensures((&k, &old(self)@[k]), true),
            forall|k: K| #![trigger old(self)@.contains_key(k)] #![trigger final(self)@.contains_key(k)] old(self)@.contains_key(k) ==> final(self)@.contains_key(k) || f.ensures((&k, &old(self)@[k]), false),
    { self.retain(|k, v| f(k, v)) }
}
pub assume_specification<T>[ std::mem::replace::<T> ](d: &mut T, v: T) -> (r: T) // TRUSTED: std mem::replace
    ensures r == *old(d), *final(d) == v;
pub assume_specification<T: Default>[ std::mem::take::<T> ](d: &mut T) -> (r: T) // TRUSTED: std mem::take
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) // TRUSTED: std Option::copied
    ensures o is None ==> r is None, o matches Some(x) ==> r == Some(*x);
pub assume_specification<T: Eq + std::hash::Hash, S: std::hash::BuildHasher, A: core::alloc::Allocator>[ HashSet::<T, S, A>::is_subset ](a: &HashSet<T, S, A>, b: &HashSet<T, S, A>) -> (r: bool) // TRUSTED: std HashSet::is_subset
    ensures vstd::std_specs::hash::obeys_key_model::<T>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> r == a@.subset_of(b@);
pub assume_specification<T: Eq + std::hash::Hash, S: std::hash::BuildHasher, A: core::alloc::Allocator>[ HashSet::<T, S, A>::is_disjoint ](a: &HashSet<T, S, A>, b: &HashSet<T, S, A>) -> (r: bool) // TRUSTED: std HashSet::is_disjoint
    ensures vstd::std_specs::hash::obeys_key_model::<T>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> r == a@.disjoint(b@);
impl<'a, T: Copy> VIt<&'a T> {
    #[verifier::external_body] // TRUSTED: Iterator::copied / cloned on Copy items
    pub fn v_copied(self) -> (r: VIt<T>)
        ensures r.rest() == self.rest().map_values(|x: &'a T| *x),
    { VIt { v: self.v.into_iter().copied().collect() } }
}

/// Vectors used as stacks.
pub trait VVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_push(&mut self, t: T)
        ensures
            final(self).vv() == old(self).vv().push(t),
            final(self).vv().contains(t),
            forall|y: T| #[trigger] final(self).vv().contains(y) ==> y == t || old(self).vv().contains(y),
            forall|y: T| #[trigger] old(self).vv().contains(y) ==> final(self).vv().contains(y);
    fn v_pop(&mut self) -> (r: Option<T>)
        ensures
            old(self).vv().len() == 0 ==> r.is_none() && final(self).vv() == old(self).vv(),
            old(self).vv().len() > 0 ==> r == Some(old(self).vv().last()) && final(self).vv() == old(self).vv().drop_last(),
            r.is_none() ==> old(self).vv().len() == 0,
            r matches Some(x) ==> old(self).vv().contains(x),
            forall|y: T| #[trigger] final(self).vv().contains(y) ==> old(self).vv().contains(y),
            forall|y: T| #[trigger] old(self).vv().contains(y) ==> r == Some(y) || final(self).vv().contains(y);
}
impl<T> VVec<T> for Vec<T> {
    #[verifier::inline]
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn v_push(&mut self, t: T) {
        self.push(t);
        proof {
            let (o, n) = (old(self)@, self@);
            assert(n.last() == t && n.contains(n.last()));
            assert forall|y: T| #[trigger] o.contains(y) implies n.contains(y) by {
                let i = choose|i: int| 0 <= i < o.len() && o[i] == y;
                assert(n[i] == y);
            }
        }
    }
    fn v_pop(&mut self) -> (r: Option<T>) {
        let r = self.pop();
        proof {
            let (o, n) = (old(self)@, self@);
            if o.len() > 0 {
                assert(o.contains(o.last()));
                assert forall|y: T| #[trigger] o.contains(y) implies y == o.last() || n.contains(y) by {
                    let i = choose|i: int| 0 <= i < o.len() && o[i] == y;
                    if i < n.len() { assert(n[i] == y); }
                }
                assert forall|y: T| #[trigger] n.contains(y) implies o.contains(y) by {
                    let i = choose|i: int| 0 <= i < n.len() && n[i] == y;
                    assert(o[i] == y);
                }
            }
        }
        r
    }
}

/// Sources of iteration. `into_iter` of a set enumerates its elements, each exactly once.
pub trait VIntoIter {
    type Item;
    spec fn vseq(self, s: Seq<Self::Item>) -> bool;
    fn v_into_iter(self) -> (r: VIt<Self::Item>)
        ensures self.vseq(r.rest());
}
impl<T: Eq + std::hash::Hash> VIntoIter for HashSet<T> {
    type Item = T;
    open spec fn vseq(self, s: Seq<T>) -> bool {
        s.no_duplicates() && s.len() == self@.len()
        && (forall|x: T| #[trigger] s.contains(x) ==> self@.contains(x)) && (forall|x: T| #[trigger] self@.contains(x) ==> s.contains(x))
    }
    #[verifier::external_body] // TRUSTED: HashSet::into_iter
    fn v_into_iter(self) -> (r: VIt<T>) { VIt { v: self.into_iter().collect() } }
}
impl<'a, T: Eq + std::hash::Hash> VIntoIter for &'a HashSet<T> {
    type Item = &'a T;
    open spec fn vseq(self, s: Seq<&'a T>) -> bool {
        let t = s.map_values(|x: &'a T| *x);
        t.no_duplicates() && s.len() == self@.len()
        && (forall|x: &'a T| #[trigger] s.contains(x) ==> self@.contains(*x)) && (forall|x: T| #[trigger] self@.contains(x) ==> s.contains(&x))
    }
    #[verifier::external_body] // TRUSTED: HashSet::iter
    fn v_into_iter(self) -> (r: VIt<&'a T>) { VIt { v: self.into_iter().collect() } }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn vseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] // TRUSTED: Vec::into_iter
    fn v_into_iter(self) -> (r: VIt<T>) { VIt { v: self.into() } }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vseq(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && s.map_values(|x: &'a T| *x) == self@ }
    #[verifier::external_body] // TRUSTED: Vec::iter
    fn v_into_iter(self) -> (r: VIt<&'a T>) { VIt { v: self.iter().collect() } }
}
pub trait VKeys<K>: Sized {
    spec fn vkeys(&self) -> Set<K>;
    fn v_keys<'a>(&'a self) -> (r: VIt<&'a K>)
        ensures
            r.rest().map_values(|x: &'a K| *x).no_duplicates(),
            forall|x: &'a K| #[trigger] r.rest().contains(x) ==> self.vkeys().contains(*x),
            forall|x: K| #[trigger] self.vkeys().contains(x) ==> r.rest().contains(&x),
            r.rest().len() == self.vkeys().len();
}
impl<K: Eq + std::hash::Hash, V> VKeys<K> for HashMap<K, V> {
    open spec fn vkeys(&self) -> Set<K> { self@.dom() }
    #[verifier::external_body] // TRUSTED: HashMap::keys
    fn v_keys<'a>(&'a self) -> (r: VIt<&'a K>) { VIt { v: self.keys().collect() } }
}
pub trait VIter {
    type Item;
    spec fn viter<'a>(&'a self, s: Seq<&'a Self::Item>) -> bool;
    fn v_iter<'a>(&'a self) -> (r: VIt<&'a Self::Item>)
        ensures self.viter(r.rest());
}
impl<T: Eq + std::hash::Hash> VIter for HashSet<T> {
    type Item = T;
    open spec fn viter<'a>(&'a self, s: Seq<&'a T>) -> bool {
        let t = s.map_values(|x: &'a T| *x);
        t.no_duplicates() && s.len() == self@.len()
        && (forall|x: &'a T| #[trigger] s.contains(x) ==> self@.contains(*x)) && (forall|x: T| #[trigger] self@.contains(x) ==> s.contains(&x))
    }
    #[verifier::external_body] // TRUSTED: HashSet::iter
    fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>) { VIt { v: self.iter().collect() } }
}
impl<T> VIter for Vec<T> {
    type Item = T;
    open spec fn viter<'a>(&'a self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && s.map_values(|x: &'a T| *x) == self@ }
    #[verifier::external_body] // TRUSTED: Vec::iter
    fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>) { VIt { v: self.iter().collect() } }
}
/// Iteration over copies of the items of a collection of ids (`iter()`, `keys()`: the items are `Copy`).
pub trait VIterC<T>: Sized {
    spec fn viterc(&self, s: Seq<T>) -> bool;
    fn v_iter_c(&self) -> (r: VIt<T>)
        ensures self.viterc(r.rest());
}
impl<T: Eq + std::hash::Hash + Copy> VIterC<T> for HashSet<T> {
    open spec fn viterc(&self, s: Seq<T>) -> bool {
        s.no_duplicates() && s.len() == self@.len()
        && (forall|x: T| #[trigger] s.contains(x) ==> self@.contains(x)) && (forall|x: T| #[trigger] self@.contains(x) ==> s.contains(x))
    }
    #[verifier::external_body] // TRUSTED: HashSet::iter
    fn v_iter_c(&self) -> (r: VIt<T>) { VIt { v: self.iter().copied().collect() } }
}
impl<T: Copy> VIterC<T> for Vec<T> {
    open spec fn viterc(&self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] // TRUSTED: Vec::iter
    fn v_iter_c(&self) -> (r: VIt<T>) { VIt { v: self.iter().copied().collect() } }
}
pub trait VKeysC<K>: Sized {
    spec fn vkeysc(&self, s: Seq<K>) -> bool;
    fn v_keys_c(&self) -> (r: VIt<K>)
        ensures self.vkeysc(r.rest());
}
impl<K: Eq + std::hash::Hash + Copy, V> VKeysC<K> for HashMap<K, V> {
    open spec fn vkeysc(&self, s: Seq<K>) -> bool {
        s.no_duplicates() && s.len() == self@.dom().len()
        && (forall|x: K| #[trigger] s.contains(x) ==> self@.contains_key(x)) && (forall|x: K| #[trigger] self@.contains_key(x) ==> s.contains(x))
    }
    #[verifier::external_body] // TRUSTED: HashMap::keys
    fn v_keys_c(&self) -> (r: VIt<K>) { VIt { v: self.keys().copied().collect() } }
}
pub trait VClone<K>: Sized {
    spec fn vels(&self) -> Set<K>;
    fn v_clone(&self) -> (r: Self)
        ensures r.vels() == self.vels();
}
impl<K: Eq + std::hash::Hash + Copy> VClone<K> for HashSet<K> {
    open spec fn vels(&self) -> Set<K> { self@ }
    #[verifier::external_body] // TRUSTED: HashSet::clone of Copy items
    fn v_clone(&self) -> (r: Self) { self.clone() }
}
