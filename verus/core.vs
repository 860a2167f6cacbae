//@ boxany RawCache
//@ drop impl BuilderEntry as Hash -- hashing of entries is not used by the cache
//@ drop impl BuilderEntry as PartialEq -- comparing entries is not used by the cache
//@ drop impl BuilderEntry as Eq -- comparing entries is not used by the cache
//@ attrs struct BuilderEntry #noderive
//@ attrs struct RawCache #[verifier::reject_recursive_types(ArtCan)]
//@ attrs struct RawCache #[verifier::reject_recursive_types(BCan)]
//@ attrs struct Cache #[verifier::reject_recursive_types(ArtCan)]
//@ attrs struct Cache #[verifier::reject_recursive_types(BCan)]
//@ attrs struct Resolver #[verifier::reject_recursive_types(ArtCan)]
//@ attrs struct Resolver #[verifier::reject_recursive_types(BCan)]
//@ attrs struct Resolver #[verifier::reject_recursive_types(DynState)]
//@ raw
/// The types of the artifact and of the dynamic state of the builder that a weak handle refers to.
pub uninterp spec fn art_tag<ArtCan, W>(w: W) -> int;
pub uninterp spec fn dyn_tag<ArtCan, W>(w: W) -> int;

// ---------------------------------------------------------------- what a doctor is told
pub enum Ev<ArtCan> { Resolve(Id, Id), Build(Id, ArtCan), Invalidate(Id), Clear }
/// The first thing told in `s` is that `u` resolves `q`, and `i` is where the next thing about `u` may begin.
pub open spec fn request<ArtCan>(u: Id, q: Id, s: Seq<Ev<ArtCan>>, i: int) -> bool {
    1 <= i <= s.len() && s[0] == Ev::<ArtCan>::Resolve(u, q)
}
/// `s` is what a doctor is told during the requests of one build of `u`: for each request the resolve event, and then
/// whatever happens while the requested one is served.
pub open spec fn reqs<ArtCan>(u: Id, s: Seq<Ev<ArtCan>>) -> bool
    decreases s.len(), 0nat,
{
    s.len() == 0 || exists|q: Id, i: int| #[trigger] request(u, q, s, i) && made(q, s.subrange(1, i)) && reqs(u, s.subrange(i, s.len() as int))
}
/// `s` is what a doctor is told while `q` is served: nothing (if cached), or the requests of its build, with its build event if it succeeded.
pub open spec fn made<ArtCan>(q: Id, s: Seq<Ev<ArtCan>>) -> bool
    decreases s.len(), 1nat,
{
    reqs(q, s) || (s.len() > 0 && (s.last() matches Ev::Build(b, a) && b == q) && reqs(q, s.drop_last()))
}
pub open spec fn served<ArtCan>(u: Id, o: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>) -> bool {
    o.is_prefix_of(n) && reqs(u, n.skip(o.len() as int))
}
pub open spec fn served_made<ArtCan>(q: Id, o: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>) -> bool {
    o.is_prefix_of(n) && made(q, n.skip(o.len() as int))
}
/// A successful build ends with its build event.
pub open spec fn served_built<ArtCan>(q: Id, o: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>, c: ArtCan) -> bool {
    &&& n.len() > o.len() && n.last() == Ev::Build(q, c)
    &&& served(q, o, n.drop_last())
}
pub proof fn reqs_cat<ArtCan>(u: Id, a: Seq<Ev<ArtCan>>, b: Seq<Ev<ArtCan>>)
    requires reqs(u, a), reqs(u, b),
    ensures reqs(u, a + b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        let (q, i) = choose|q: Id, i: int| #[trigger] request(u, q, a, i) && made(q, a.subrange(1, i)) && reqs(u, a.subrange(i, a.len() as int));
        let (r, s) = (a.subrange(i, a.len() as int), a + b);
        reqs_cat(u, r, b);
        assert(s.subrange(1, i) =~= a.subrange(1, i));
        assert(s.subrange(i, s.len() as int) =~= r + b);
        assert(request(u, q, s, i));
    }
}
/// A request after other requests: this is why the contract of a user's build holds, whatever it requests.
pub proof fn served_trans<ArtCan>(u: Id, o: Seq<Ev<ArtCan>>, m: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>)
    requires served(u, o, m), served(u, m, n),
    ensures served(u, o, n),
{
    reqs_cat(u, m.skip(o.len() as int), n.skip(m.len() as int));
    assert(n.skip(o.len() as int) =~= m.skip(o.len() as int) + n.skip(m.len() as int));
    assert forall|i: int| 0 <= i < o.len() implies o[i] == n[i] by { assert(o[i] == m[i]); assert(m[i] == n[i]); }
    assert(o.is_prefix_of(n));
}
pub proof fn served_none<ArtCan>(u: Id, o: Seq<Ev<ArtCan>>)
    ensures served(u, o, o),
{
    assert(o.skip(o.len() as int).len() == 0);
}
pub proof fn served_one<ArtCan>(u: Id, q: Id, o: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>)
    requires served_made(q, o.push(Ev::Resolve(u, q)), n),
    ensures served(u, o, n),
{
    let s = n.skip(o.len() as int);
    assert(o.push(Ev::Resolve(u, q))[o.len() as int] == n[o.len() as int]);
    assert(s[0] == Ev::<ArtCan>::Resolve(u, q));
    assert(s.subrange(1, s.len() as int) =~= n.skip(o.len() as int + 1));
    assert(reqs(u, s.subrange(s.len() as int, s.len() as int)));
    assert(made(q, s.subrange(1, s.len() as int)));
    assert(request(u, q, s, s.len() as int));
    assert forall|i: int| 0 <= i < o.len() implies o[i] == n[i] by { assert(o.push(Ev::Resolve(u, q))[i] == n[i]); }
    assert(o.is_prefix_of(n));
}
pub proof fn served_built_made<ArtCan>(q: Id, o: Seq<Ev<ArtCan>>, n: Seq<Ev<ArtCan>>, c: ArtCan)
    requires served_built(q, o, n, c),
    ensures served_made(q, o, n),
{
    let s = n.skip(o.len() as int);
    assert(s.drop_last() =~= n.drop_last().skip(o.len() as int));
    assert(s.last() == n.last());
    assert forall|i: int| 0 <= i < o.len() implies o[i] == n[i] by { assert(o[i] == n.drop_last()[i]); }
    assert(o.is_prefix_of(n));
}
/// All of this at once, for a given start.
pub proof fn served_all<ArtCan>(q: Id, o: Seq<Ev<ArtCan>>)
    ensures
        served(q, o, o) && served_made(q, o, o),
        forall|n: Seq<Ev<ArtCan>>| #[trigger] served(q, o, n) ==> served_made(q, o, n),
        forall|n: Seq<Ev<ArtCan>>, c: ArtCan| #[trigger] served_built(q, o, n, c) ==> served_made(q, o, n),
        forall|n: Seq<Ev<ArtCan>>, c: ArtCan| #[trigger] served(q, o, n) ==> #[trigger] served_built(q, o, n.push(Ev::Build(q, c)), c),
{
    served_none(q, o);
    assert forall|n: Seq<Ev<ArtCan>>, c: ArtCan| #[trigger] served_built(q, o, n, c) implies served_made(q, o, n) by { served_built_made(q, o, n, c); }
    assert forall|n: Seq<Ev<ArtCan>>, c: ArtCan| #[trigger] served(q, o, n) implies #[trigger] served_built(q, o, n.push(Ev::Build(q, c)), c) by {
        assert(n.push(Ev::Build(q, c)).drop_last() =~= n);
    }
}
pub proof fn served_req<ArtCan>(u: Id, q: Id, o: Seq<Ev<ArtCan>>)
    ensures forall|n: Seq<Ev<ArtCan>>| #[trigger] served_made(q, o.push(Ev::Resolve(u, q)), n) ==> served(u, o, n),
{
    assert forall|n: Seq<Ev<ArtCan>>| #[trigger] served_made(q, o.push(Ev::Resolve(u, q)), n) implies served(u, o, n) by { served_one(u, q, o, n); }
}

// ---------------------------------------------------------------- Box<dyn Any>
#[verifier::external_body]
pub struct BoxAny { b: Box<dyn std::any::Any> }
impl BoxAny {
    pub uninterp spec fn btag(self) -> int;
    pub uninterp spec fn bval<T>(self) -> T;
    #[verifier::external_body] // TRUSTED: Box::new followed by unsizing to dyn Any
    pub fn v_new<T: 'static>(t: T) -> (r: BoxAny)
        ensures r.btag() == tag::<T>(), r.bval::<T>() == t,
    { BoxAny { b: Box::new(t) } }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_mut
    pub fn downcast_mut<T: 'static>(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self).btag() != tag::<T>() ==> r.is_none() && *final(self) == *old(self),
            old(self).btag() == tag::<T>() ==> (r matches Some(v) && *v == old(self).bval::<T>()
                && final(self).btag() == tag::<T>() && final(self).bval::<T>() == *final(v)
                && (*final(v) == *v ==> *final(self) == *old(self))),
    { self.b.downcast_mut() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_ref
    pub fn downcast_ref<T: 'static>(&self) -> (r: Option<&T>)
        ensures
            r.is_some() == (self.btag() == tag::<T>()),
            r matches Some(v) ==> *v == self.bval::<T>(),
    { self.b.downcast_ref() }
}

#[verifier::external_body] // ASSUMED: a container of artifacts that can be cloned shares its value (as Rc and Arc do; Box<dyn Any> cannot be cloned)
pub proof fn clones_share<C: CanBase + Clone>()
    ensures C::shares(),
{ }
/// ASSUMED: a container of artifacts keeps what it is given (the supplied ones do, which unit cans proves, except for
/// blueprints that own their builder in a Box, which cannot be used with a cache).
#[verifier::external_body]
pub proof fn keeps<C: CanSized<T>, T>()
    ensures C::keeps(), forall|b: C::Bin| C::bin_ok(b), forall|t: T| C::t_ok(t),
{ }

/// TRUSTED allocation axiom: whatever weak handle has the address of a blueprint's builder was made of that builder
/// (an allocation cannot be given out again while a weak handle to it exists).
#[verifier::external_body]
pub proof fn alloc<ArtCan, BCan, B, AP>(p: &AP)
    where BCan: CanStrong + Can<B>, B: Builder<ArtCan, BCan> + ?Sized, AP: Promise<Builder = B, BCan = BCan> + ?Sized,
    ensures
        forall|w: BCan::CanWeak| #[trigger] BCan::waddr(w) == p.pid().0 ==>
            art_tag::<ArtCan, BCan::CanWeak>(w) == kind::<ArtCan, B::Artifact>() && dyn_tag::<ArtCan, BCan::CanWeak>(w) == tag::<B::DynState>(),
{ }

// ---------------------------------------------------------------- relations
pub mod relax {
use super::*;
pub type Rel = Map<Id, HashSet<Id>>;
pub open spec fn rel(m: Rel, a: Id, b: Id) -> bool { m.contains_key(a) && m[a]@.contains(b) }
pub open spec fn no_dependents(m: Rel, a: Id) -> bool { !m.contains_key(a) || m[a]@.len() == 0 }
pub broadcast proof fn rel_remove(m: Rel, k: Id, a: Id, b: Id)
    ensures #[trigger] rel(m.remove(k), a, b) <==> a != k && rel(m, a, b),
{ }
pub broadcast proof fn rel_insert(m: Rel, k: Id, s: HashSet<Id>, a: Id, b: Id)
    ensures #[trigger] rel(m.insert(k, s), a, b) <==> if a == k { s@.contains(b) } else { rel(m, a, b) },
{ }
pub broadcast proof fn nodeps_remove(m: Rel, k: Id, a: Id)
    ensures #[trigger] no_dependents(m.remove(k), a) <==> a == k || no_dependents(m, a),
{ }
pub broadcast proof fn nodeps_insert(m: Rel, k: Id, s: HashSet<Id>, a: Id)
    ensures #[trigger] no_dependents(m.insert(k, s), a) <==> if a == k { s@.len() == 0 } else { no_dependents(m, a) },
{ }
pub broadcast group group_rel { rel_remove, rel_insert, nodeps_remove, nodeps_insert }
}
pub use relax::*;
/// A chain of dependents leads from `p[0]` to its last element.
pub open spec fn is_path(m: Rel, p: Seq<Id>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] rel(m, p[i], p[i + 1])
}
/// `x` is `root` or one of its direct or transitive dependents.
#[verifier::opaque]
pub open spec fn reach(m: Rel, root: Id, x: Id) -> bool {
    exists|p: Seq<Id>| #[trigger] is_path(m, p) && p[0] == root && p.last() == x
}
pub proof fn reach_self(m: Rel, x: Id)
    ensures reach(m, x, x),
{
    reveal(reach);
    let p = seq![x];
    assert(is_path(m, p) && p[0] == x && p.last() == x);
}
pub proof fn reach_step(m: Rel, root: Id, x: Id, y: Id)
    requires reach(m, root, x), rel(m, x, y),
    ensures reach(m, root, y),
{
    reveal(reach);
    let p = choose|p: Seq<Id>| #[trigger] is_path(m, p) && p[0] == root && p.last() == x;
    let q = p.push(y);
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] rel(m, q[i], q[i + 1]) by {
        if i < p.len() - 1 { assert(rel(m, p[i], p[i + 1])); }
    }
    assert(is_path(m, q) && q[0] == root && q.last() == y);
}
/// Whatever contains the root and is closed under the relation contains everything reachable.
pub proof fn reach_closed(m: Rel, root: Id, s: spec_fn(Id) -> bool, x: Id)
    requires s(root), forall|a: Id, b: Id| s(a) && #[trigger] rel(m, a, b) ==> s(b), reach(m, root, x),
    ensures s(x),
{
    reveal(reach);
    let p = choose|p: Seq<Id>| #[trigger] is_path(m, p) && p[0] == root && p.last() == x;
    path_closed(m, p, s, p.len() - 1);
}
pub proof fn path_closed(m: Rel, p: Seq<Id>, s: spec_fn(Id) -> bool, i: int)
    requires is_path(m, p), s(p[0]), forall|a: Id, b: Id| s(a) && #[trigger] rel(m, a, b) ==> s(b), 0 <= i < p.len(),
    ensures s(p[i]),
    decreases i,
{
    if i > 0 {
        path_closed(m, p, s, i - 1);
        assert(rel(m, p[i - 1], p[i - 1 + 1]));
    }
}
pub proof fn reach_trans(m: Rel, a: Id, b: Id, c: Id)
    requires reach(m, a, b), reach(m, b, c),
    ensures reach(m, a, c),
{
    assert forall|x: Id, y: Id| reach(m, a, x) && #[trigger] rel(m, x, y) implies reach(m, a, y) by { reach_step(m, a, x, y); }
    reach_closed(m, b, |x: Id| reach(m, a, x), c);
}
/// Reachability only grows with the relation.
pub proof fn reach_mono(m: Rel, n: Rel, a: Id, b: Id)
    requires reach(m, a, b), forall|x: Id, y: Id| #[trigger] rel(m, x, y) ==> rel(n, x, y),
    ensures reach(n, a, b),
{
    reach_self(n, a);
    assert forall|x: Id, y: Id| reach(n, a, x) && #[trigger] rel(m, x, y) implies reach(n, a, y) by { reach_step(n, a, x, y); }
    reach_closed(m, a, |x: Id| reach(n, a, x), b);
}
/// `x` is some element of `s` or one of its direct or transitive dependents.
#[verifier::opaque]
pub open spec fn hits(m: Rel, s: Set<Id>, x: Id) -> bool { exists|d: Id| #[trigger] s.contains(d) && reach(m, d, x) }
pub proof fn hits_empty(m: Rel, x: Id)
    ensures !hits(m, Set::empty(), x),
{
    reveal(hits);
}
pub proof fn hits_insert(m: Rel, s: Set<Id>, d: Id, x: Id)
    ensures hits(m, s.insert(d), x) <==> hits(m, s, x) || reach(m, d, x),
{
    reveal(hits);
    if hits(m, s.insert(d), x) {
        let e = choose|e: Id| #[trigger] s.insert(d).contains(e) && reach(m, e, x);
        if e != d { assert(s.contains(e)); }
    }
    if hits(m, s, x) {
        let e = choose|e: Id| #[trigger] s.contains(e) && reach(m, e, x);
        assert(s.insert(d).contains(e));
    }
    assert(s.insert(d).contains(d));
}
pub proof fn hits_step(m: Rel, s: Set<Id>, x: Id, y: Id)
    requires hits(m, s, x), rel(m, x, y),
    ensures hits(m, s, y),
{
    reveal(hits);
    let e = choose|e: Id| #[trigger] s.contains(e) && reach(m, e, x);
    reach_step(m, e, x, y);
}
pub proof fn hits_member(m: Rel, s: Set<Id>, x: Id)
    requires s.contains(x),
    ensures hits(m, s, x),
{
    reveal(hits);
    reach_self(m, x);
}
/// Removing the dependents of `d` after those of all in `s` amounts to removing the dependents of all in `s` and `d`.
pub proof fn hits_next(m: Rel, n: Rel, s: Set<Id>, d: Id, x: Id)
    requires forall|a: Id, b: Id| #![trigger rel(m, a, b)] #![trigger rel(n, a, b)] rel(n, a, b) <==> rel(m, a, b) && !hits(m, s, b),
    ensures hits(m, s.insert(d), x) <==> hits(m, s, x) || reach(n, d, x),
{
    hits_insert(m, s, d, x);
    if reach(n, d, x) { reach_mono(n, m, d, x); }
    if reach(m, d, x) {
        let f = |y: Id| hits(m, s, y) || reach(n, d, y);
        reach_self(n, d);
        assert forall|a: Id, b: Id| f(a) && #[trigger] rel(m, a, b) implies f(b) by {
            if hits(m, s, a) { hits_step(m, s, a, b); }
            else if !hits(m, s, b) { assert(rel(n, a, b)); reach_step(n, d, a, b); }
        }
        reach_closed(m, d, f, x);
    }
}
pub proof fn nodeps_none(m: Rel, a: Id)
    requires forall|b: Id| !#[trigger] rel(m, a, b),
    ensures no_dependents(m, a),
{
    if m.contains_key(a) {
        assert forall|b: Id| !m[a]@.contains(b) by { assert(!rel(m, a, b)); }
        assert(m[a]@ =~= Set::empty());
    }
}
pub proof fn nodeps_rel(m: Rel, a: Id, b: Id)
    requires no_dependents(m, a),
    ensures !rel(m, a, b),
{
    if m.contains_key(a) { assert(m[a]@ =~= Set::empty()); }
}
/// Only itself is reachable from something without dependents.
pub proof fn reach_leaf(m: Rel, r: Id, x: Id)
    requires reach(m, r, x), forall|b: Id| !#[trigger] rel(m, r, b),
    ensures x == r,
{
    reach_closed(m, r, |y: Id| y == r, x);
}
/// The direct and transitive dependents of `root`, without `root` itself (unless it depends on itself).
pub open spec fn below(m: Rel, root: Id, x: Id) -> bool { m.contains_key(root) && hits(m, m[root]@, x) }
/// `s` are the dependents of `root`
pub proof fn below_hits(m: Rel, root: Id, s: Set<Id>)
    requires forall|x: Id| #[trigger] rel(m, root, x) <==> s.contains(x),
    ensures forall|x: Id| #[trigger] below(m, root, x) <==> hits(m, s, x),
{
    assert forall|x: Id| #[trigger] below(m, root, x) <==> hits(m, s, x) by {
        if m.contains_key(root) {
            assert forall|y: Id| m[root]@.contains(y) <==> s.contains(y) by { assert(rel(m, root, y) <==> s.contains(y)); }
            assert(m[root]@ =~= s);
        } else {
            assert forall|y: Id| !s.contains(y) by { assert(rel(m, root, y) <==> s.contains(y)); }
            assert(s =~= Set::empty());
            hits_empty(m, x);
        }
    }
}
pub proof fn below_none(m: Rel, root: Id, x: Id)
    requires forall|b: Id| !#[trigger] rel(m, root, b),
    ensures !below(m, root, x),
{
    if m.contains_key(root) {
        assert forall|b: Id| !m[root]@.contains(b) by { assert(!rel(m, root, b)); }
        assert(m[root]@ =~= Set::empty());
        hits_empty(m, x);
    }
}
pub proof fn below_edge(m: Rel, root: Id, x: Id)
    requires rel(m, root, x),
    ensures below(m, root, x),
{
    hits_member(m, m[root]@, x);
}

pub open spec fn on_cycle(m: Rel, y: Id) -> bool { exists|l: Id| #[trigger] rel(m, l, y) && reach(m, y, l) }
pub proof fn path_reach(m: Rel, p: Seq<Id>, i: int)
    requires is_path(m, p), 0 <= i < p.len(),
    ensures reach(m, p[i], p.last()),
{
    reveal(reach);
    let q = p.subrange(i, p.len() as int);
    assert forall|j: int| 0 <= j < q.len() - 1 implies #[trigger] rel(m, q[j], q[j + 1]) by { assert(rel(m, p[i + j], p[i + j + 1])); }
    assert(is_path(m, q) && q[0] == p[i] && q.last() == p.last());
}

// ---------------------------------------------------------------- the abstract state of a cache
impl<ArtCan, BCan: CanStrong> RawCache<ArtCan, BCan> {
    #[verifier::inline]
    pub open spec fn arts(&self) -> Map<Id, ArtCan> { self.artifacts@ }
    #[verifier::inline]
    pub open spec fn dyns(&self) -> Map<Id, BoxAny> { self.dyn_states@ }
    #[verifier::inline]
    pub open spec fn known(&self) -> Map<Id, BCan::CanWeak> { self.known_builders@ }
    /// What the doctor was told so far.
    #[verifier::inline]
//@ if diagnostics
    pub open spec fn evs(&self) -> Seq<Ev<ArtCan>> { self.doctor.log() }
//@ else
    pub open spec fn evs(&self) -> Seq<Ev<ArtCan>> { Seq::empty() }
//@ endif
    #[verifier::inline]
    pub open spec fn leafs(&self) -> Set<Id> { self.known_leaf_builder@ }
    /// `b` depends on `a`.
    #[verifier::inline]
    pub open spec fn fwd(&self, a: Id, b: Id) -> bool { rel(self.dependents@, a, b) }
    /// `a` depends on `b`.
    #[verifier::inline]
    pub open spec fn rev(&self, a: Id, b: Id) -> bool { rel(self.dependencies@, a, b) }
    #[verifier::inline]
    pub open spec fn cone(&self, root: Id, x: Id) -> bool { reach(self.dependents@, root, x) }
    #[verifier::inline]
    pub open spec fn nodeps(&self, a: Id) -> bool { no_dependents(self.dependents@, a) }
    #[verifier::inline]
    pub open spec fn dead(&self, a: Id) -> bool { BCan::dead(self.known()[a]) }

    /// The two dependency mappings mirror each other.
    pub open spec fn wf_sym(&self) -> bool {
        &&& forall|a: Id, b: Id| #[trigger] self.fwd(a, b) ==> self.rev(b, a)
        &&& forall|a: Id, b: Id| #[trigger] self.rev(a, b) ==> self.fwd(b, a)
    }
    /// Only known builders have dependencies or dependents (`x` is excepted).
    pub open spec fn wf_edges(&self, x: Option<Id>) -> bool {
        &&& forall|a: Id, b: Id| #[trigger] self.fwd(a, b) ==>
            (self.known().contains_key(a) || x == Some(a)) && (self.known().contains_key(b) || x == Some(b))
        &&& forall|a: Id| !#[trigger] self.nodeps(a) ==> self.known().contains_key(a) || x == Some(a)
    }
    pub open spec fn wf_known(&self) -> bool { self.wf_knownx(None) }
    pub open spec fn wf_knownx(&self, x: Option<Id>) -> bool {
        &&& forall|a: Id| #[trigger] self.arts().contains_key(a) ==> self.known().contains_key(a) || x == Some(a)
        &&& forall|a: Id| #[trigger] self.dyns().contains_key(a) ==> self.known().contains_key(a) || x == Some(a)
    }
    /// The leafs are exactly the known builders without dependents.
    pub open spec fn wf_leaf(&self) -> bool { self.leaf_only() && self.leaf_all() }
    pub open spec fn leaf_only(&self) -> bool {
        forall|a: Id| #[trigger] self.leafs().contains(a) ==> self.known().contains_key(a) && self.nodeps(a)
    }
    pub open spec fn leaf_all(&self) -> bool {
        forall|a: Id| #[trigger] self.known().contains_key(a) && self.nodeps(a) ==> self.leafs().contains(a)
    }
    /// More leafs than before are known builders that lost their dependents.
    pub open spec fn leaf_more(&self, o: &Self) -> bool {
        forall|a: Id| #[trigger] self.leafs().contains(a) ==> o.leafs().contains(a) || self.known().contains_key(a) && self.nodeps(a)
    }
    pub open spec fn nodeps_kept(&self, o: &Self) -> bool {
        forall|a: Id| #![trigger self.nodeps(a)] #![trigger o.nodeps(a)] self.nodeps(a) || !o.nodeps(a)
    }
    /// Every recorded id is pinned by a weak handle of that very builder.
    pub open spec fn wf_pin(&self) -> bool {
        forall|a: Id| #[trigger] self.known().contains_key(a) ==> BCan::waddr(self.known()[a]) == a.0
    }
    pub open spec fn wf_art(&self, x: Option<Id>) -> bool {
        forall|a: Id| #[trigger] self.arts().contains_key(a) && x != Some(a) ==> self.known().contains_key(a)
            && ctag(self.arts()[a]) == art_tag::<ArtCan, BCan::CanWeak>(self.known()[a])
    }
    pub open spec fn wf_dyn(&self, x: Option<Id>) -> bool {
        forall|a: Id| #[trigger] self.dyns().contains_key(a) && x != Some(a) ==> self.known().contains_key(a)
            && self.dyns()[a].btag() == dyn_tag::<ArtCan, BCan::CanWeak>(self.known()[a])
    }
    /// Every artifact comes with a dynamic state.
    pub open spec fn wf_both(&self, x: Option<Id>) -> bool {
        forall|a: Id| #[trigger] self.arts().contains_key(a) && x != Some(a) ==> self.dyns().contains_key(a)
    }
    pub open spec fn wfx(&self, x: Option<Id>) -> bool {
        &&& self.wf_sym() &&& self.wf_edges(x) &&& self.wf_knownx(x) &&& self.leaf_all()
        &&& self.wf_pin() &&& self.wf_art(x) &&& self.wf_dyn(x) &&& self.wf_both(x)
    }
    pub open spec fn wf(&self) -> bool { self.wfx(None) && self.leaf_only() }
    /// Every known builder has a dynamic state (`x` is excepted).
    pub open spec fn fullx(&self, x: Option<Id>) -> bool {
        forall|a: Id| #[trigger] self.known().contains_key(a) && x != Some(a) ==> self.dyns().contains_key(a)
    }
    /// The invariant of the cache between any two calls.
    pub open spec fn inv(&self) -> bool { self.wf() && self.fullx(None) }

    /// Nothing but dead builders went, with all they had.
    pub open spec fn collected(&self, o: &Self) -> bool {
        &&& forall|x: Id| #![trigger self.known().contains_key(x)] #![trigger o.known().contains_key(x)]
            self.known().contains_key(x) ==> o.known().contains_key(x) && self.known()[x] == o.known()[x]
        &&& forall|x: Id| #![trigger self.known().contains_key(x)] #![trigger o.known().contains_key(x)]
            o.known().contains_key(x) && !o.dead(x) ==> self.known().contains_key(x)
        &&& self.kept(o)
    }
    pub open spec fn kept(&self, o: &Self) -> bool {
        &&& forall|x: Id| #![trigger self.arts().contains_key(x)] #![trigger o.arts().contains_key(x)]
            (self.arts().contains_key(x) <==> o.arts().contains_key(x) && self.known().contains_key(x)) && (self.arts().contains_key(x) ==> self.arts()[x] == o.arts()[x])
        &&& forall|x: Id| #![trigger self.dyns().contains_key(x)] #![trigger o.dyns().contains_key(x)]
            (self.dyns().contains_key(x) <==> o.dyns().contains_key(x) && self.known().contains_key(x)) && (self.dyns().contains_key(x) ==> self.dyns()[x] == o.dyns()[x])
        &&& forall|a: Id, b: Id| #![trigger self.fwd(a, b)] #![trigger o.fwd(a, b)] self.fwd(a, b) <==> o.fwd(a, b) && self.known().contains_key(b)
    }
    /// Nothing but the dynamic state of `id`, which is now `v`.
    pub open spec fn dyn_put<D>(&self, o: &Self, id: Id, v: D) -> bool {
        &&& self.dyns() =~= o.dyns().insert(id, self.dyns()[id])
        &&& self.dyns()[id].btag() == tag::<D>()
        &&& self.dyns()[id].bval::<D>() == v
        &&& o.dyns().contains_key(id) && o.dyns()[id].btag() == tag::<D>() && o.dyns()[id].bval::<D>() == v ==> self.dyns()[id] == o.dyns()[id]
    }
    pub open spec fn same_art(&self, o: &Self) -> bool { self.arts() =~= o.arts() }
    pub open spec fn same_dyn(&self, o: &Self) -> bool { self.dyns() =~= o.dyns() }
    pub open spec fn same_known(&self, o: &Self) -> bool { self.known() =~= o.known() && self.leafs() =~= o.leafs() }
    pub open spec fn same_deps(&self, o: &Self) -> bool { self.dependents@ =~= o.dependents@ && self.dependencies@ =~= o.dependencies@ }
    /// `id` is known now, all other records are as before.
    pub open spec fn knows(&self, o: &Self, id: Id) -> bool {
        &&& self.known().contains_key(id) && self.known() =~= o.known().insert(id, self.known()[id])
        &&& o.known().contains_key(id) ==> self.known()[id] == o.known()[id]
    }
    /// The cache just before the build of `id` is run.
    pub open spec fn prepared<B: Builder<ArtCan, BCan> + ?Sized>(&self, o: &Self, b: &B, id: Id) -> bool {
        &&& self.same_art(o) && self.same_deps(o) && self.knows(o, id)
        &&& o.dyns().contains_key(id) ==> self.same_dyn(o)
        &&& !o.dyns().contains_key(id) ==> self.dyns() =~= o.dyns().insert(id, self.dyns()[id])
            && self.dyns()[id].btag() == tag::<B::DynState>() && b.inits(self.dyns()[id].bval::<B::DynState>())
    }
    /// The cache ran the build of `b` exactly once, which succeeded with what `c` contains; `fin` is stored as its artifact now.
    pub open spec fn built_ok<B: Builder<ArtCan, BCan> + ?Sized>(&self, o: &Self, b: &B, id: Id, c: ArtCan, fin: ArtCan) -> bool
        where ArtCan: CanSized<B::Artifact>
    {
        exists|pre: Self, mid: Self, r: Result<ArtCan::Bin, B::Err>| #[trigger] b.built(pre, mid, id, r) && pre.prepared(o, b, id)
            && self.same_dyn(&mid) && self.same_known(&mid) && self.same_deps(&mid)
            && self.arts() =~= mid.arts().insert(id, fin)
            && (r matches Ok(bin) && c == <ArtCan as CanSized<B::Artifact>>::canned(bin))
    }
    /// The cache ran the build of `b` exactly once, which failed with `e`.
    pub open spec fn built_err<B: Builder<ArtCan, BCan> + ?Sized>(&self, o: &Self, b: &B, id: Id, e: B::Err) -> bool
        where ArtCan: Can<B::Artifact>
    {
        exists|pre: Self, mid: Self, r: Result<ArtCan::Bin, B::Err>| #[trigger] b.built(pre, mid, id, r) && pre.prepared(o, b, id)
            && self.same_dyn(&mid) && self.same_known(&mid) && self.same_deps(&mid) && self.same_art(&mid)
            && r == Err::<ArtCan::Bin, B::Err>(e)
    }
    /// What a build (of builders that are not cached in `o`, or of `u`) may do to the cache.
    pub open spec fn grown(&self, o: &Self, u: Option<Id>) -> bool {
        &&& forall|a: Id| #[trigger] o.known().contains_key(a) ==> self.known().contains_key(a) && self.known()[a] == o.known()[a]
        &&& forall|a: Id| #[trigger] o.arts().contains_key(a) ==> self.arts().contains_key(a) && self.arts()[a] == o.arts()[a]
        &&& forall|a: Id| #[trigger] o.dyns().contains_key(a) ==> self.dyns().contains_key(a)
        &&& forall|a: Id| #[trigger] o.arts().contains_key(a) && o.dyns().contains_key(a) && u != Some(a) ==> self.dyns()[a] == o.dyns()[a]
        &&& forall|a: Id, b: Id| #[trigger] o.fwd(a, b) ==> self.fwd(a, b)
        &&& forall|a: Id, b: Id| #[trigger] self.fwd(a, b) && !o.fwd(a, b) ==> !o.arts().contains_key(b) || u == Some(b)
    }
    /// `u` became a dependent of `q`.
    pub open spec fn tracked(&self, o: &Self, u: Id, q: Id) -> bool {
        &&& forall|a: Id, b: Id| #[trigger] self.fwd(a, b) <==> o.fwd(a, b) || (a == q && b == u)
        &&& self.knows(o, q) && self.same_art(o) && self.same_dyn(o)
    }
    /// Nothing at all changed.
    pub open spec fn same(&self, o: &Self) -> bool { self.evs() == o.evs() && self.same_art(o) && self.same_dyn(o) && self.same_known(o) && self.same_deps(o) }
    /// The artifacts of the dependents of `id` are gone, all else remains (but for the artifact of `id`, which may be modified).
    pub open spec fn dropped_below(&self, o: &Self, id: Id) -> bool {
        &&& forall|x: Id| #[trigger] self.arts().contains_key(x) ==> o.arts().contains_key(x) && !below(o.dependents@, id, x)
        &&& forall|x: Id| #[trigger] o.arts().contains_key(x) && !below(o.dependents@, id, x) ==> self.arts().contains_key(x)
        &&& forall|x: Id| #[trigger] self.arts().contains_key(x) && x != id ==> self.arts()[x] == o.arts()[x]
        &&& self.same_dyn(o)
        &&& self.known() =~= o.known()
        &&& forall|a: Id, b: Id| #[trigger] self.fwd(a, b) <==> o.fwd(a, b) && !below(o.dependents@, id, b)
    }
    /// Whatever is still cached is still based on what it was built from.
    pub open spec fn fresh_kept(&self, o: &Self) -> bool {
        forall|q: Id, u: Id| #![trigger o.fwd(q, u)] #![trigger self.fwd(q, u)] o.fwd(q, u) && o.arts().contains_key(u) && self.arts().contains_key(u) ==>
            self.fwd(q, u) && (o.arts().contains_key(q) ==> self.arts().contains_key(q) && self.arts()[q] == o.arts()[q])
    }
    /// Some live builder used `x`, directly or transitively, or a cycle of builders did.
    #[verifier::opaque]
    pub open spec fn wanted(&self, x: Id) -> bool {
        exists|y: Id| #[trigger] self.cone(x, y) && self.known().contains_key(y) && (!self.dead(y) || on_cycle(self.dependents@, y))
    }
    /// Nothing but the record of `id` was added.
    pub open spec fn made_known(&self, o: &Self, id: Id) -> bool {
        &&& self.arts() =~= o.arts() && self.dyns() =~= o.dyns()
        &&& self.dependents@ =~= o.dependents@ && self.dependencies@ =~= o.dependencies@
        &&& o.known().contains_key(id) ==> self.known() =~= o.known() && self.leafs() =~= o.leafs()
        &&& !o.known().contains_key(id) ==> self.known() =~= o.known().insert(id, self.known()[id])
        &&& self.known().contains_key(id)
    }
}

pub proof fn grown_prepared<ArtCan, BCan: CanStrong, B: Builder<ArtCan, BCan> + ?Sized>(o: RawCache<ArtCan, BCan>, pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>, b: &B, id: Id)
    requires mid.grown(&pre, None), pre.prepared(&o, b, id),
    ensures mid.grown(&o, None),
{
    assert forall|x: Id| #[trigger] o.arts().contains_key(x) implies mid.arts().contains_key(x) && mid.arts()[x] == o.arts()[x] by { assert(pre.arts().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.known().contains_key(x) implies mid.known().contains_key(x) && mid.known()[x] == o.known()[x] by { assert(pre.known().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.dyns().contains_key(x) implies mid.dyns().contains_key(x) by { assert(pre.dyns().contains_key(x)); }
}
pub proof fn grown_tracked<ArtCan, BCan: CanStrong>(o: RawCache<ArtCan, BCan>, pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>, u: Id, q: Id)
    requires mid.grown(&pre, None), pre.tracked(&o, u, q),
    ensures mid.grown(&o, Some(u)), mid.fwd(q, u),
{
    assert forall|x: Id| #[trigger] o.arts().contains_key(x) implies mid.arts().contains_key(x) && mid.arts()[x] == o.arts()[x] by { assert(pre.arts().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.known().contains_key(x) implies mid.known().contains_key(x) && mid.known()[x] == o.known()[x] by { assert(pre.known().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.dyns().contains_key(x) implies mid.dyns().contains_key(x) by { assert(pre.dyns().contains_key(x)); }
    assert forall|a: Id, b: Id| #[trigger] o.fwd(a, b) implies mid.fwd(a, b) by { assert(pre.fwd(a, b)); }
    assert(pre.fwd(q, u));
}
/// If no leaf is dead, then every dead builder is wanted: following the dependents of dead builders comes to an end.
pub proof fn wanted_all<ArtCan, BCan: CanStrong>(c: RawCache<ArtCan, BCan>, x: Id)
    requires c.inv(), forall|y: Id| #[trigger] c.leafs().contains(y) ==> !c.dead(y), c.known().contains_key(x), c.dead(x),
    ensures c.wanted(x),
{
    let p = seq![x];
    assert(is_path(c.dependents@, p) && p.no_duplicates());
    wanted_chain(c, x, p);
}
pub proof fn wanted_chain<ArtCan, BCan: CanStrong>(c: RawCache<ArtCan, BCan>, x: Id, p: Seq<Id>)
    requires c.inv(), forall|y: Id| #[trigger] c.leafs().contains(y) ==> !c.dead(y),
        is_path(c.dependents@, p), p[0] == x, p.no_duplicates(),
        forall|i: int| 0 <= i < p.len() ==> c.known().contains_key(#[trigger] p[i]) && c.dead(p[i]),
        
    ensures c.wanted(x),
    decreases c.known().dom().len() + 1 - p.len(),
{
    reveal(RawCache::wanted);
    let m = c.dependents@;
    let l = p.last();
    path_reach(m, p, 0);
    assert(p[p.len() - 1] == l);
    assert(!c.leafs().contains(l));
    assert(!c.nodeps(l));
    let y = m[l]@.choose();
    assert(c.fwd(l, y));
    reach_step(m, x, l, y);
    if c.dead(y) {
        if p.contains(y) {
            let i = choose|i: int| 0 <= i < p.len() && p[i] == y;
            path_reach(m, p, i);
            assert(rel(m, l, y) && reach(m, y, l));
            assert(on_cycle(m, y));
        } else {
            let q = p.push(y);
            assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] rel(m, q[i], q[i + 1]) by {
                if i < p.len() - 1 { assert(rel(m, p[i], p[i + 1])); }
            }
            assert(q.no_duplicates());
            q.unique_seq_to_set();
            assert(q.to_set().subset_of(c.known().dom())) by {
                assert forall|z: Id| #[trigger] q.to_set().contains(z) implies c.known().contains_key(z) by {
                    let i = choose|i: int| 0 <= i < q.len() && q[i] == z;
                    if i < p.len() { assert(p[i] == z); }
                }
            }
            vstd::set_lib::lemma_len_subset(q.to_set(), c.known().dom());
            wanted_chain(c, x, q);
        }
    }
}
/// What a sequence of requests during a build does to the cache.
pub proof fn grown_trans<ArtCan, BCan: CanStrong>(o: RawCache<ArtCan, BCan>, m: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id)
    requires m.grown(&o, Some(u)), n.grown(&m, Some(u)),
    ensures n.grown(&o, Some(u)), !o.arts().contains_key(u) ==> n.grown(&o, None),
{
    assert forall|x: Id| #[trigger] o.arts().contains_key(x) implies n.arts().contains_key(x) && n.arts()[x] == o.arts()[x] by { assert(m.arts().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.known().contains_key(x) implies n.known().contains_key(x) && n.known()[x] == o.known()[x] by { assert(m.known().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.dyns().contains_key(x) implies n.dyns().contains_key(x) by { assert(m.dyns().contains_key(x)); }
    assert forall|x: Id| #[trigger] o.arts().contains_key(x) && o.dyns().contains_key(x) && x != u implies n.dyns()[x] == o.dyns()[x] by { assert(m.arts().contains_key(x) && m.dyns().contains_key(x)); }
    assert forall|a: Id, b: Id| #[trigger] o.fwd(a, b) implies n.fwd(a, b) by { assert(m.fwd(a, b)); }
    assert forall|a: Id, b: Id| #[trigger] n.fwd(a, b) && !o.fwd(a, b) implies !o.arts().contains_key(b) || b == u by {
        if m.fwd(a, b) { } else { if o.arts().contains_key(b) { assert(m.arts().contains_key(b)); } }
    }
}
// ---------------------------------------------------------------- what a request of a build yields
impl<ArtCan, BCan: CanStrong> RawCache<ArtCan, BCan> {
    /// In cache `o` the builder `u`, being built, requested the artifact of `q`, which failed with `e` or else (`None`) is cached now.
    pub open spec fn asked<B: Builder<ArtCan, BCan> + ?Sized>(&self, o: &Self, u: Id, q: Id, b: &B, e: Option<B::Err>) -> bool
        where ArtCan: CanSized<B::Artifact>
    {
        &&& self.fwd(q, u) && self.grown(o, Some(u))
        &&& e is None ==> self.arts().contains_key(q)
        &&& o.arts().contains_key(q) ==> e is None && self.tracked(o, u, q)
        &&& !o.arts().contains_key(q) ==> exists|t: Self| #[trigger] t.tracked(o, u, q)
            && (e is None ==> self.built_ok(&t, b, q, self.arts()[q], self.arts()[q]))
            && (e matches Some(x) ==> self.built_err(&t, b, q, x))
    }
}
pub open spec fn err_of<T, E>(r: Result<T, E>) -> Option<E> {
    match r { Ok(_) => None, Err(e) => Some(e) }
}

//@ extra trait Builder
[] /// `d` is an initial dynamic state of this builder.
 spec fn inits(&self, d: Self::DynState) -> bool;
[] /// This builder's build, run on a cache `o`, left the cache `n` and returned `r`.
 spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, Self::Err>) -> bool where ArtCan: Can<Self::Artifact>;
//@ fn Builder::build(cache)
//@ requires
[C09,C05] old(cache).rwf()
[C01] !old(cache).cache.arts().contains_key(old(cache).uid())
//@ ensures
[] final(cache).rwf()
[] final(cache).user == old(cache).user && *final(final(cache).cache) == *final(old(cache).cache)
[] final(cache).cache.grown(old(cache).cache, None)
[C15] self.built(*old(cache).cache, *final(cache).cache, old(cache).uid(), ret)
//@ if diagnostics
[C16] served(old(cache).uid(), old(cache).cache.evs(), final(cache).cache.evs())
//@ endif

//@ fn Builder::init_dyn_state()
//@ ensures
[C15,C05] self.inits(ret)

//@ raw
impl<'a, ArtCan, BCan: CanStrong, DynState> Resolver<'a, ArtCan, BCan, DynState> {
    pub open spec fn uid(&self) -> Id { self.user.eid() }
    /// The user is known, and has a dynamic state of the right type.
    pub open spec fn rwf(&self) -> bool {
        &&& self.cache.inv()
        &&& self.cache.known().contains_key(self.uid())
        &&& dyn_tag::<ArtCan, BCan::CanWeak>(self.cache.known()[self.uid()]) == tag::<DynState>()
//@ if diagnostics
        &&& self.diag_builder.id == self.uid()
//@ endif
    }
}
impl<BCan: CanStrong> BuilderEntry<BCan> {
    pub open spec fn eid(&self) -> Id { BuilderId(self.builder.addr()) }
}
//@ fn BuilderEntry::new(ap)
//@ ensures
[C13,C04] ret.eid() == ap.pid()
//@ at entry
proof { BCan::strong(); }
//@ fn BuilderEntry::id()
//@ ensures
[C13,C04] ret == self.eid()

//@ ifnot diagnostics
//@ fn RawCache::new()
//@ ensures
[C09,C10] ret.inv()
[C10,C11] ret.known().dom() == Set::<Id>::empty()
//@ endif
//@ fn RawCache::make_builder_known(promise)
//@ ensures
[C10,C07] final(self).made_known(old(self), promise.pid())
[] !old(self).known().contains_key(promise.pid()) ==> final(self).leafs() =~= old(self).leafs().insert(promise.pid()) && BCan::waddr(final(self).known()[promise.pid()]) == promise.pid().0
[C13] old(self).wf_pin() ==> final(self).wf_pin()
[C08] old(self).wf() ==> final(self).wf_leaf()
[C09] old(self).wf() ==> final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ at entry
proof { BCan::strong(); }

//@ fn RawCache::is_builder_known_by_id(bid)
//@ ensures
[C10] ret == self.known().contains_key(bid)
//@ fn RawCache::is_builder_known(promise)
//@ ensures
[C10] ret == self.known().contains_key(promise.pid())
//@ fn RawCache::contains_artifact(promise)
//@ ensures
[C01] ret == self.arts().contains_key(promise.pid())
//@ fn RawCache::number_of_known_builders()
//@ ensures
[C10] ret as nat == self.known().dom().len()

//@ fn RawCache::invalidate_by_id(builder)
//@ requires
[] old(self).wfx(Some(*builder))
//@ ensures
[C02] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> !old(self).cone(*builder, x)
[C03] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger final(self).arts().contains_key(x)] old(self).arts().contains_key(x) && !old(self).cone(*builder, x) ==> final(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C01] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> old(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C03,C05] final(self).dyns() =~= old(self).dyns()
[C03,C10] final(self).known() =~= old(self).known()
[C03,C02,C04] forall|a: Id, b: Id| #[trigger] final(self).fwd(a, b) <==> old(self).fwd(a, b) && !old(self).cone(*builder, b)
[C02,C04] final(self).wf_sym()
[C08,C09] final(self).leaf_all()
[C08,C09] final(self).leaf_more(old(self))
[C08,C09] final(self).nodeps_kept(old(self))
[C08,C09] old(self).leaf_only() ==> final(self).leaf_only()
[C09] final(self).wfx(Some(*builder))
[C09] old(self).wfx(None) || !old(self).dyns().contains_key(*builder) ==> final(self).wfx(None)
[C16] final(self).evs() == old(self).evs()
//@ at entry
let ghost D = old(self).dependents@;
let ghost root = *builder;
let ghost mut done: Set<Id> = Set::empty();
proof { reach_self(D, root); }
//@ loop 0 inv
[C02,C04] forall|a: Id, b: Id| #![trigger self.fwd(a, b)] #![trigger old(self).fwd(a, b)] self.fwd(a, b) <==> old(self).fwd(a, b) && !done.contains(a) && !done.contains(b)
[C02,C04] forall|a: Id, b: Id| #![trigger self.rev(a, b)] #![trigger old(self).rev(a, b)] self.rev(a, b) <==> old(self).rev(a, b) && !done.contains(a)
[C02,C09] forall|a: Id| #[trigger] done.contains(a) ==> !self.dependents@.contains_key(a) && !self.dependencies@.contains_key(a)
[C09] forall|x: Id| #[trigger] done.contains(x) ==> processed@.contains(x)
[C09] forall|x: Id| #[trigger] processed@.contains(x) ==> done.contains(x) || x == root
[C02] done.contains(root) || (done =~= Set::empty() && $it0@ =~= seq![root])
[C03] forall|x: Id| #[trigger] done.contains(x) ==> reach(D, root, x)
[C03] forall|x: Id| #[trigger] $it0@.contains(x) ==> reach(D, root, x)
[C02] forall|a: Id, b: Id| done.contains(a) && #[trigger] old(self).fwd(a, b) ==> done.contains(b) || $it0@.contains(b)
[C08,C09] self.leaf_all()
[C08,C09] self.leaf_more(old(self))
[C02,C03] forall|x: Id| #[trigger] self.arts().contains_key(x) <==> old(self).arts().contains_key(x) && !done.contains(x)
[C03] forall|x: Id| #[trigger] self.arts().contains_key(x) ==> self.arts()[x] == old(self).arts()[x]
[C03,C05] self.dyns() =~= old(self).dyns()
[C03,C10] self.known() =~= old(self).known()
[] forall|a: Id| #![trigger self.nodeps(a)] #![trigger old(self).nodeps(a)] self.nodeps(a) || !old(self).nodeps(a)
[C16] self.evs() == old(self).evs()
//@ loop 0 ens
[] $it0@.len() == 0
//@ loop 0 dec
[C09] self.dependents@.dom().len(), $it0@.len()
//@ loop 0 begin
let ghost s0 = *self;
let ghost p0 = $it0@;
assert(reach(D, root, $x0));
//@ loop 0 end
proof { done = done.insert($x0); }
//@ loop 1 inv
[C02] forall|x: Id| #[trigger] s0.fwd($x0, x) ==> $it.rest().contains(x) || $it0@.contains(x)
[C02] forall|x: Id| #[trigger] p0.contains(x) ==> $it0@.contains(x)
[C03] forall|x: Id| #[trigger] $it0@.contains(x) ==> reach(D, root, x)
[C03] forall|x: Id| #[trigger] $it.rest().contains(x) ==> s0.fwd($x0, x)
[C09] s0.dependents@.contains_key($x0) || ($it.rest().len() == 0 && $it0@.len() == p0.len())
//@ loop 1 begin
proof { reach_step(D, root, $x0, $x); }
//@ loop 2 begin
let ghost s2 = *self;
//@ loop 2 end
assert forall|a: Id, b: Id| #![trigger self.fwd(a, b)] #![trigger s2.fwd(a, b)] self.fwd(a, b) <==> s2.fwd(a, b) && !(a == $x && b == $x0 && !processed@.contains($x)) by { }
//@ loop 2 inv
[C02,C04] forall|a: Id, b: Id| #![trigger self.fwd(a, b)] #![trigger old(self).fwd(a, b)] self.fwd(a, b) <==> old(self).fwd(a, b) && !done.contains(a) && !done.contains(b) && a != $x0 && !(b == $x0 && !$it.rest().contains(a))
[C09] $it.rest().no_duplicates()
[C09] forall|a: Id| #[trigger] $it.rest().contains(a) ==> old(self).rev($x0, a) && !done.contains($x0)
[] forall|a: Id| #![trigger self.nodeps(a)] #![trigger old(self).nodeps(a)] self.nodeps(a) || !old(self).nodeps(a)
[C08,C09] forall|a: Id| a != $x0 ==> (#[trigger] self.known().contains_key(a) && self.nodeps(a) ==> self.leafs().contains(a))
[C08,C09] forall|a: Id| #[trigger] self.leafs().contains(a) ==> old(self).leafs().contains(a) || self.known().contains_key(a) && (a == $x0 || self.nodeps(a))
[] forall|a: Id| #![trigger e2.leafs().contains(a)] #![trigger self.leafs().contains(a)] e2.leafs().contains(a) ==> self.leafs().contains(a)
[] self.dependents@.dom() =~= e2.dependents@.dom()
[] self.dependencies@ =~= e2.dependencies@
[] self.arts() =~= e2.arts() && self.dyns() =~= e2.dyns() && self.known() =~= e2.known()
[C16] self.evs() == old(self).evs()
//@ loop 2 before
let ghost e2 = *self;
//@ loop 0 after
assert forall|x: Id| #[trigger] old(self).cone(root, x) implies done.contains(x) by { reach_closed(D, root, |y: Id| done.contains(y), x); }

//@ fn RawCache::invalidate_dependents(builder)
//@ requires
[] old(self).wf()
//@ ensures
[C12,C02] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> !below(old(self).dependents@, *builder, x)
[C12,C03] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger final(self).arts().contains_key(x)] old(self).arts().contains_key(x) && !below(old(self).dependents@, *builder, x) ==> final(self).arts().contains_key(x)
[C12,C01] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> old(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C12,C05] final(self).dyns() =~= old(self).dyns()
[C12,C10] final(self).known() =~= old(self).known()
[C12,C04] forall|a: Id, b: Id| #[trigger] final(self).fwd(a, b) <==> old(self).fwd(a, b) && !below(old(self).dependents@, *builder, b)
[C12,C01,C02,C03,C04,C05,C10] final(self).dropped_below(old(self), *builder)
[C08] final(self).wf_leaf()
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ at entry
let ghost D = old(self).dependents@;
let ghost mut done: Set<Id> = Set::empty();
proof { assert forall|x: Id| !#[trigger] hits(D, done, x) by { hits_empty(D, x); } }
//@ loop 0 inv
[C09] self.wfx(None)
[C08,C09] forall|a: Id| #[trigger] self.leafs().contains(a) ==> self.known().contains_key(a) && (self.nodeps(a) || a == *builder)
[C12,C02] forall|x: Id| #[trigger] rel(D, *builder, x) <==> done.contains(x) || $it.rest().contains(x)
[C12,C04] forall|a: Id, b: Id| #![trigger self.fwd(a, b)] #![trigger old(self).fwd(a, b)] self.fwd(a, b) <==> old(self).fwd(a, b) && !hits(D, done, b)
[C12] forall|x: Id| #[trigger] self.arts().contains_key(x) ==> old(self).arts().contains_key(x) && self.arts()[x] == old(self).arts()[x] && !hits(D, done, x)
[C12] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger self.arts().contains_key(x)] old(self).arts().contains_key(x) && !hits(D, done, x) ==> self.arts().contains_key(x)
[C12,C05] self.dyns() =~= old(self).dyns()
[C12,C10] self.known() =~= old(self).known()
[C16] self.evs() == old(self).evs()
//@ loop 0 begin
let ghost s0 = *self;
//@ loop 0 end
proof {
  assert forall|x: Id| #[trigger] hits(D, done.insert($x), x) <==> hits(D, done, x) || reach(s0.dependents@, $x, x) by { hits_next(D, s0.dependents@, done, $x, x); }
  done = done.insert($x);
}
//@ loop 0 after
proof { below_hits(D, *builder, done); }
assert forall|b: Id| !#[trigger] self.fwd(*builder, b) by { if old(self).fwd(*builder, b) { below_edge(D, *builder, b); } }
proof { nodeps_none(self.dependents@, *builder); }

//@ fn RawCache::invalidate(promise)
//@ requires
[] old(self).wf()
//@ ensures
[C02] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> !old(self).cone(promise.pid(), x)
[C03] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger final(self).arts().contains_key(x)] old(self).arts().contains_key(x) && !old(self).cone(promise.pid(), x) ==> final(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C01] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> old(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C03,C05] final(self).dyns() =~= old(self).dyns()
[C03,C10] final(self).known() =~= old(self).known()
[C03,C04] forall|a: Id, b: Id| #[trigger] final(self).fwd(a, b) <==> old(self).fwd(a, b) && !old(self).cone(promise.pid(), b)
[C09] final(self).wf()
//@ if diagnostics
[C16] final(self).evs() == old(self).evs().push(Ev::Invalidate(promise.pid()))
//@ endif

//@ fn RawCache::purge(promise)
//@ attr #[verifier::spinoff_prover]
//@ requires
[] old(self).wf()
//@ ensures
[C02,C11] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> !old(self).cone(promise.pid(), x)
[C03,C11] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger final(self).arts().contains_key(x)] old(self).arts().contains_key(x) && !old(self).cone(promise.pid(), x) ==> final(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C01] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> old(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C11,C03,C05] final(self).dyns() =~= old(self).dyns().remove(promise.pid())
[C11,C10,C03] final(self).known() =~= old(self).known().remove(promise.pid())
[C11,C03,C04] forall|a: Id, b: Id| #[trigger] final(self).fwd(a, b) <==> old(self).fwd(a, b) && !old(self).cone(promise.pid(), b)
[C09,C11] final(self).wf()
//@ if diagnostics
[C16] final(self).evs() == old(self).evs().push(Ev::Invalidate(promise.pid()))
//@ endif
//@ at entry
proof {
  let (D, p) = (old(self).dependents@, promise.pid());
  reach_self(D, p);
  assert forall|b: Id| #[trigger] rel(D, p, b) implies reach(D, p, b) by { reach_step(D, p, p, b); }
}
//@ at exit
assert forall|b: Id| !#[trigger] self.fwd(promise.pid(), b) by { let c = old(self).fwd(promise.pid(), b); }
proof { nodeps_none(self.dependents@, promise.pid()); }
assert forall|x: Id| #[trigger] old(self).arts().contains_key(x) && !old(self).cone(promise.pid(), x) implies x != promise.pid() && self.arts().contains_key(x) && self.arts()[x] == old(self).arts()[x] by { reach_self(old(self).dependents@, promise.pid()); let c = self.arts().contains_key(x); }
//@ fn RawCache::clear_artifacts()
//@ ensures
[C11] final(self).arts() =~= Map::empty()
[C11,C05] final(self).dyns() =~= old(self).dyns()
[C11,C10] final(self).known() =~= old(self).known()
[C11,C08] forall|a: Id| #[trigger] final(self).leafs().contains(a) ==> old(self).leafs().contains(a) || old(self).known().contains_key(a)
[C11,C08] forall|a: Id| #[trigger] old(self).known().contains_key(a) ==> final(self).leafs().contains(a)
[C11,C08] old(self).wf() ==> final(self).wf_leaf()
[C11,C09] old(self).wf() ==> final(self).wf()
[C11] forall|a: Id, b: Id| !#[trigger] final(self).fwd(a, b) && !final(self).rev(a, b)
[C11,C09] final(self).dependents@ =~= Map::empty() && final(self).dependencies@ =~= Map::empty()
[C16] final(self).evs() == old(self).evs()
//@ loop 0 before
let ghost s0 = *self;
//@ loop 0 inv
[C11] self.arts() =~= s0.arts() && self.dyns() =~= old(self).dyns() && self.known() =~= old(self).known()
[C11] self.dependents@ =~= s0.dependents@ && self.dependencies@ =~= s0.dependencies@
[C11,C08] forall|a: Id| #[trigger] self.leafs().contains(a) ==> s0.leafs().contains(a) || self.known().contains_key(a)
[C11,C08] forall|a: Id| #[trigger] self.known().contains_key(a) ==> self.leafs().contains(a) || $it.rest().contains(a)
[C11,C08] forall|a: Id| #[trigger] $it.rest().contains(a) ==> self.known().contains_key(a)
[C16] self.evs() == old(self).evs()

//@ fn RawCache::clear_all()
//@ requires
[] old(self).wf()
//@ ensures
[C11] final(self).arts() =~= Map::empty() && final(self).dyns() =~= Map::empty()
[C11,C10] final(self).known() =~= Map::empty()
[C11,C08] final(self).leafs() =~= Set::empty()
[C11] forall|a: Id, b: Id| !#[trigger] final(self).fwd(a, b) && !#[trigger] final(self).rev(a, b)
[C11,C09] final(self).wf()
//@ if diagnostics
[C16] final(self).evs() == old(self).evs().push(Ev::Clear)
//@ endif

//@ fn RawCache::collect_unreachable_leafs()
//@ requires
[] old(self).wf()
//@ ensures
[C07] final(self).collected(old(self))
[C08] forall|x: Id| #[trigger] old(self).leafs().contains(x) && old(self).dead(x) ==> !final(self).known().contains_key(x)
[C08] !ret ==> forall|x: Id| #[trigger] final(self).leafs().contains(x) ==> !final(self).dead(x)
[C08,C09] ret ==> final(self).known().dom().len() < old(self).known().dom().len()
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ at entry
let ghost mut done: Set<Id> = Set::empty();
//@ loop 0 inv
[C09] $b
[C09] forall|x: Id| #[trigger] $it.rest().contains(x) ==> self.known().contains_key(x)
//@ loop 1 inv
[C07,C09] forall|x: Id| #[trigger] $acc@.contains(x) ==> self.leafs().contains(x) && self.dead(x)
[C08] forall|x: Id| #[trigger] self.leafs().contains(x) && self.dead(x) ==> $acc@.contains(x) || $it.rest().contains(x)
[C09] forall|x: Id| #[trigger] $it.rest().contains(x) ==> self.leafs().contains(x)
//@ loop 2 before
let ghost V = $it.rest();
//@ loop 2 inv
[C09] self.wf()
[C07,C08] forall|x: Id| #![trigger self.known().contains_key(x)] #![trigger old(self).known().contains_key(x)] self.known().contains_key(x) <==> old(self).known().contains_key(x) && !done.contains(x)
[C07] forall|x: Id| #[trigger] self.known().contains_key(x) ==> self.known()[x] == old(self).known()[x]
[C07,C08] self.kept(old(self))
[C08] forall|x: Id| #[trigger] V.contains(x) ==> done.contains(x) || $it.rest().contains(x)
[C07,C09] forall|x: Id| #[trigger] $it.rest().contains(x) ==> V.contains(x) && old(self).leafs().contains(x) && old(self).dead(x)
[C08] forall|x: Id| #[trigger] done.contains(x) ==> V.contains(x)
[C08] (forall|x: Id| !#[trigger] done.contains(x)) ==> self.leafs() =~= old(self).leafs()
[C07] forall|x: Id| #[trigger] done.contains(x) ==> old(self).leafs().contains(x) && old(self).dead(x)
[C16] self.evs() == old(self).evs()
//@ loop 2 begin
let ghost s0 = *self;
proof {
  assert forall|b: Id| !#[trigger] self.fwd($x, b) by { nodeps_rel(old(self).dependents@, $x, b); }
  assert forall|y: Id| #[trigger] self.cone($x, y) implies y == $x by { reach_leaf(self.dependents@, $x, y); }
  reach_self(self.dependents@, $x);
}
//@ loop 2 end
proof {
  done = done.insert($x);
  assert(done.contains($x));
  nodeps_none(self.dependents@, $x);
}
//@ loop 2 after
proof {
  if V.len() > 0 {
    let x = V[0];
    assert(V.contains(x));
    vstd::set_lib::lemma_len_subset(self.known().dom(), old(self).known().dom().remove(x));
  }
}

//@ fn RawCache::garbage_collection()
//@ requires
[] old(self).wf()
//@ ensures
[C07] final(self).collected(old(self))
[C08] forall|x: Id| #[trigger] final(self).leafs().contains(x) ==> !final(self).dead(x)
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ loop 0 inv
[C07] self.collected(old(self))
[C09] self.wf()
[C16] self.evs() == old(self).evs()
//@ loop 0 ens
[C08] forall|x: Id| #[trigger] self.leafs().contains(x) ==> !self.dead(x)
//@ loop 0 dec
[C08,C09] self.known().dom().len()

//@ if diagnostics
//@ fn RawCache::track_dependency(user, diag_builder, promise)
//@ else
//@ fn RawCache::track_dependency(user, promise)
//@ endif
//@ requires
[] old(self).wf()
[C09,C04] old(self).known().contains_key(user.eid())
//@ ensures
[C04,C03] forall|a: Id, b: Id| #![trigger final(self).fwd(a, b)] #![trigger old(self).fwd(a, b)] final(self).fwd(a, b) <==> old(self).fwd(a, b) || (a == promise.pid() && b == user.eid())
[C04,C03] forall|a: Id, b: Id| #![trigger final(self).rev(a, b)] #![trigger old(self).rev(a, b)] final(self).rev(a, b) <==> old(self).rev(a, b) || (a == user.eid() && b == promise.pid())
[C04] final(self).wf_sym()
[C10] final(self).knows(old(self), promise.pid())
[C06,C01] final(self).same_art(old(self))
[C05] final(self).same_dyn(old(self))
[C08] final(self).wf_leaf()
[C09] final(self).wf()
//@ if diagnostics
[C16] final(self).evs() == old(self).evs().push(Ev::Resolve(diag_builder.id, promise.pid()))
//@ endif
//@ at entry
//@ at exit
assert forall|a: Id, b: Id| #[trigger] self.fwd(a, b) implies self.rev(b, a) by { assert(old(self).fwd(a, b) || (a == promise.pid() && b == user.eid())); }
assert forall|a: Id, b: Id| #[trigger] self.rev(a, b) implies self.fwd(b, a) by { assert(old(self).rev(a, b) || (a == user.eid() && b == promise.pid())); }

//@ fn RawCache::ensure_dyn_state(promise)
//@ requires
[] old(self).wf()
//@ ensures
[C10] final(self).knows(old(self), promise.pid())
[C05,C01] final(self).same_art(old(self))
[C05,C04] final(self).same_deps(old(self))
[C05] final(self).dyn_put::<B::DynState>(old(self), promise.pid(), *final(ret))
[C05] old(self).dyns().contains_key(promise.pid()) ==> *ret == old(self).dyns()[promise.pid()].bval::<B::DynState>()
[C05] !old(self).dyns().contains_key(promise.pid()) ==> promise.sb().inits(*ret)
[C08] final(self).wf_leaf()
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ at entry
proof { alloc::<ArtCan, BCan, B, AP>(promise); }
//@ fn RawCache::dyn_state_cast_mut(bid)
//@ requires
[] old(self).wf_known()
[C09,C05] old(self).dyns().contains_key(bid) ==> old(self).dyns()[bid].btag() == tag::<T>()
//@ ensures
[C05] ret.is_some() == old(self).dyns().contains_key(bid)
[C05] ret matches Some(v) ==> *v == old(self).dyns()[bid].bval::<T>() && final(self).dyn_put::<T>(old(self), bid, *final(v))
[C05] ret.is_none() ==> final(self).same_dyn(old(self))
[C05,C01] final(self).same_art(old(self))
[C10] final(self).same_known(old(self))
[C04] final(self).same_deps(old(self))
[C16] final(self).evs() == old(self).evs()

//@ fn RawCache::dyn_state_cast_ref(bid)
//@ requires
[] self.wf_known()
[C09,C05] self.dyns().contains_key(bid) ==> self.dyns()[bid].btag() == tag::<T>()
//@ ensures
[C05] ret.is_some() == self.dyns().contains_key(bid)
[C05] ret matches Some(v) ==> *v == self.dyns()[bid].bval::<T>()
//@ fn RawCache::dyn_state_mut(promise)
//@ requires
[] old(self).wf()
//@ ensures
[C02,C05] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> !old(self).cone(promise.pid(), x)
[C03,C05] forall|x: Id| #![trigger old(self).arts().contains_key(x)] #![trigger final(self).arts().contains_key(x)] old(self).arts().contains_key(x) && !old(self).cone(promise.pid(), x) ==> final(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C01] forall|x: Id| #[trigger] final(self).arts().contains_key(x) ==> old(self).arts().contains_key(x) && final(self).arts()[x] == old(self).arts()[x]
[C03,C04] forall|a: Id, b: Id| #[trigger] final(self).fwd(a, b) <==> old(self).fwd(a, b) && !old(self).cone(promise.pid(), b)
[C10,C03] final(self).knows(old(self), promise.pid())
[C05,C03] final(self).dyn_put::<B::DynState>(old(self), promise.pid(), *final(ret))
[C05] old(self).dyns().contains_key(promise.pid()) ==> *ret == old(self).dyns()[promise.pid()].bval::<B::DynState>()
[C05] !old(self).dyns().contains_key(promise.pid()) ==> promise.sb().inits(*ret)
[C09] final(self).wf()
//@ if diagnostics
[C16] final(self).evs() == old(self).evs().push(Ev::Invalidate(promise.pid()))
//@ endif

//@ fn RawCache::dyn_state(promise)
//@ requires
[] old(self).wf()
//@ ensures
[C10] final(self).knows(old(self), promise.pid())
[C05,C01] final(self).same_art(old(self))
[C05,C04] final(self).same_deps(old(self))
[C05] final(self).dyn_put::<B::DynState>(old(self), promise.pid(), *ret)
[C05] old(self).dyns().contains_key(promise.pid()) ==> final(self).same_dyn(old(self))
[C05] !old(self).dyns().contains_key(promise.pid()) ==> promise.sb().inits(*ret)
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()

//@ fn RawCache::get_dyn_state(promise)
//@ requires
[] self.wf()
//@ ensures
[C05] ret.is_some() == self.dyns().contains_key(promise.pid())
[C05] ret matches Some(v) ==> *v == self.dyns()[promise.pid()].bval::<B::DynState>()
//@ at entry
proof { alloc::<ArtCan, BCan, B, AP>(promise); }

//@ fn RawCache::lookup(promise)
//@ requires
[] self.wf()
//@ ensures
[C01] ret.is_some() == self.arts().contains_key(promise.pid())
[C01] ret matches Some(b) ==> <ArtCan as CanSized<B::Artifact>>::canned(b) == self.arts()[promise.pid()]
//@ at entry
proof { clones_share::<ArtCan>(); ArtCan::can_clone(); keeps::<ArtCan, B::Artifact>(); alloc::<ArtCan, BCan, B, AP>(promise); }
//@ fn RawCache::lookup_ref(promise)
//@ requires
[] self.wf()
//@ ensures
[C01] ret.is_some() == self.arts().contains_key(promise.pid())
[C01] ret matches Some(v) ==> *v == <ArtCan as CanSized<B::Artifact>>::content(self.arts()[promise.pid()])
//@ at entry
proof { alloc::<ArtCan, BCan, B, AP>(promise); }
//@ fn RawCache::lookup_cloned(promise)
//@ requires
[] self.wf()
//@ ensures
[C01] ret.is_some() == self.arts().contains_key(promise.pid())
[C01] ret matches Some(v) ==> cloned(<ArtCan as CanSized<B::Artifact>>::content(self.arts()[promise.pid()]), v)
//@ fn RawCache::lookup_mut(promise)
//@ requires
[] old(self).wf()
//@ ensures
[C12] ret.is_some() == (old(self).arts().contains_key(promise.pid()) && !below(old(self).dependents@, promise.pid(), promise.pid()))
[C12] ret matches Some(v) ==> *v == <ArtCan as CanSized<B::Artifact>>::content(old(self).arts()[promise.pid()])
  && <ArtCan as CanSized<B::Artifact>>::content(final(self).arts()[promise.pid()]) == *final(v)
  && (*final(v) == *v ==> final(self).arts()[promise.pid()] == old(self).arts()[promise.pid()])
[C12,C01,C02,C03,C04,C05,C10] final(self).dropped_below(old(self), promise.pid())
[C09] final(self).wf()
[C16] final(self).evs() == old(self).evs()
//@ at entry
proof { alloc::<ArtCan, BCan, B, AP>(promise); }

//@ fn RawCache::build(promise)
//@ requires
[] old(self).wf() && old(self).fullx(Some(promise.pid()))
[C01,C09] !old(self).arts().contains_key(promise.pid())
//@ ensures
[C06,C01,C05,C15] ret matches Err(e) ==> final(self).built_err(old(self), promise.sb(), promise.pid(), e)
[C01,C15,C05] ret matches Ok(c) ==> final(self).built_ok(old(self), promise.sb(), promise.pid(), *c, *final(c))
[C01,C09] ret matches Ok(c) ==> ctag(*c) == kind::<ArtCan, B::Artifact>() && final(self).arts().contains_key(promise.pid()) && final(self).arts()[promise.pid()] == *final(c)
[C06,C01,C04] final(self).grown(old(self), None)
[C09,C10] ret.is_err() ==> final(self).inv()
[C09,C10] ret matches Ok(c) ==> (ctag(*final(c)) == ctag(*c) ==> final(self).inv())
//@ if diagnostics
[C16] ret matches Ok(c) ==> served_built(promise.pid(), old(self).evs(), final(self).evs(), *c)
[C16] ret.is_err() ==> served(promise.pid(), old(self).evs(), final(self).evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).evs()); }
//@ endif
proof { alloc::<ArtCan, BCan, B, AP>(promise); keeps::<ArtCan, B::Artifact>(); }
proof {
  assert forall|pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>| #[trigger] mid.grown(&pre, None) && pre.prepared(old(self), promise.sb(), promise.pid()) implies mid.grown(old(self), None) by {
    grown_prepared(*old(self), pre, mid, promise.sb(), promise.pid());
  }
}

//@ fn RawCache::get(promise)
//@ requires
[] old(self).wf() && old(self).fullx(Some(promise.pid()))
//@ ensures
[C01] old(self).arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).same(old(self))
[C01] ret matches Ok(b) ==> final(self).arts().contains_key(promise.pid()) && <ArtCan as CanSized<B::Artifact>>::canned(b) == final(self).arts()[promise.pid()]
[C01,C15,C05] (ret matches Ok(b) && !old(self).arts().contains_key(promise.pid())) ==> final(self).built_ok(old(self), promise.sb(), promise.pid(), final(self).arts()[promise.pid()], final(self).arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).arts().contains_key(promise.pid()) && final(self).built_err(old(self), promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).grown(old(self), None)
[C09,C10] final(self).inv()
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).evs(), final(self).evs())
[C16] !old(self).arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).evs(), final(self).evs(), final(self).arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).evs(), final(self).evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).evs()); }
//@ endif
proof { alloc::<ArtCan, BCan, B, AP>(promise); clones_share::<ArtCan>(); ArtCan::can_clone(); keeps::<ArtCan, B::Artifact>(); }
//@ fn RawCache::get_ref(promise)
//@ requires
[] old(self).wf() && old(self).fullx(Some(promise.pid()))
//@ ensures
[C01] old(self).arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).same(old(self))
[C01] ret matches Ok(v) ==> final(self).arts().contains_key(promise.pid()) && *v == <ArtCan as CanSized<B::Artifact>>::content(final(self).arts()[promise.pid()])
[C01,C15,C05] (ret matches Ok(b) && !old(self).arts().contains_key(promise.pid())) ==> final(self).built_ok(old(self), promise.sb(), promise.pid(), final(self).arts()[promise.pid()], final(self).arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).arts().contains_key(promise.pid()) && final(self).built_err(old(self), promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).grown(old(self), None)
[C09,C10] final(self).inv()
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).evs(), final(self).evs())
[C16] !old(self).arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).evs(), final(self).evs(), final(self).arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).evs(), final(self).evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).evs()); }
//@ endif

//@ fn RawCache::get_cloned(promise)
//@ requires
[] old(self).wf() && old(self).fullx(Some(promise.pid()))
//@ ensures
[C01] old(self).arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).same(old(self))
[C01] ret matches Ok(v) ==> final(self).arts().contains_key(promise.pid()) && cloned(<ArtCan as CanSized<B::Artifact>>::content(final(self).arts()[promise.pid()]), v)
[C01,C15,C05] (ret matches Ok(b) && !old(self).arts().contains_key(promise.pid())) ==> final(self).built_ok(old(self), promise.sb(), promise.pid(), final(self).arts()[promise.pid()], final(self).arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).arts().contains_key(promise.pid()) && final(self).built_err(old(self), promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).grown(old(self), None)
[C09,C10] final(self).inv()
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).evs(), final(self).evs())
[C16] !old(self).arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).evs(), final(self).evs(), final(self).arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).evs(), final(self).evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).evs()); }
//@ endif

//@ fn Resolver::track_dependency(promise)
//@ requires
[] old(self).rwf()
//@ ensures
[C04] final(self).cache.tracked(old(self).cache, old(self).uid(), promise.pid())
[C04,C09] final(self).user == old(self).user && *final(final(self).cache) == *final(old(self).cache)
[C09] final(self).cache.wf() && final(self).cache.fullx(Some(promise.pid()))
//@ if diagnostics
[C16] final(self).cache.evs() == old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid()))
[C16] final(self).diag_builder == old(self).diag_builder
//@ endif
//@ fn Resolver::resolve(promise)
//@ requires
[] old(self).rwf()
//@ ensures
[C09,C10] final(self).rwf()
[] final(self).user == old(self).user && *final(final(self).cache) == *final(old(self).cache)
[C04] final(self).cache.fwd(promise.pid(), old(self).uid())
[C04,C06,C01] final(self).cache.grown(old(self).cache, Some(old(self).uid()))
[C01] ret matches Ok(b) ==> final(self).cache.arts().contains_key(promise.pid()) && <ArtCan as CanSized<B::Artifact>>::canned(b) == final(self).cache.arts()[promise.pid()]
[C01,C04] old(self).cache.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).cache.tracked(old(self).cache, old(self).uid(), promise.pid())
[C01,C06,C05] !old(self).cache.arts().contains_key(promise.pid()) ==> exists|t: RawCache<ArtCan, BCan>| #[trigger] t.tracked(old(self).cache, old(self).uid(), promise.pid())
  && (ret.is_ok() ==> final(self).cache.built_ok(&t, promise.sb(), promise.pid(), final(self).cache.arts()[promise.pid()], final(self).cache.arts()[promise.pid()]))
  && (ret matches Err(e) ==> final(self).cache.built_err(&t, promise.sb(), promise.pid(), e))
[C15] final(self).cache.asked(old(self).cache, old(self).uid(), promise.pid(), promise.sb(), err_of(ret))
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] old(self).cache.arts().contains_key(promise.pid()) ==> final(self).cache.evs() == old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid()))
[C16] !old(self).cache.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs(), final(self).cache.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] served(old(self).uid(), old(self).cache.evs(), final(self).cache.evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).cache.evs()); served_req(old(self).uid(), promise.pid(), old(self).cache.evs()); }
//@ endif
proof {
  assert forall|pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>| #[trigger] mid.grown(&pre, None) && pre.tracked(old(self).cache, old(self).uid(), promise.pid())
    implies mid.grown(old(self).cache, Some(old(self).uid())) && mid.fwd(promise.pid(), old(self).uid()) by {
    grown_tracked(*old(self).cache, pre, mid, old(self).uid(), promise.pid());
  }
}
//@ fn Resolver::resolve_ref(promise)
//@ requires
[] old(self).rwf()
//@ ensures
[C09,C10] final(self).rwf()
[] final(self).user == old(self).user && *final(final(self).cache) == *final(old(self).cache)
[C04] final(self).cache.fwd(promise.pid(), old(self).uid())
[C04,C06,C01] final(self).cache.grown(old(self).cache, Some(old(self).uid()))
[C01] ret matches Ok(v) ==> final(self).cache.arts().contains_key(promise.pid()) && *v == <ArtCan as CanSized<B::Artifact>>::content(final(self).cache.arts()[promise.pid()])
[C01,C04] old(self).cache.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).cache.tracked(old(self).cache, old(self).uid(), promise.pid())
[C01,C06,C05] !old(self).cache.arts().contains_key(promise.pid()) ==> exists|t: RawCache<ArtCan, BCan>| #[trigger] t.tracked(old(self).cache, old(self).uid(), promise.pid())
  && (ret.is_ok() ==> final(self).cache.built_ok(&t, promise.sb(), promise.pid(), final(self).cache.arts()[promise.pid()], final(self).cache.arts()[promise.pid()]))
  && (ret matches Err(e) ==> final(self).cache.built_err(&t, promise.sb(), promise.pid(), e))
[C15] final(self).cache.asked(old(self).cache, old(self).uid(), promise.pid(), promise.sb(), err_of(ret))
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] old(self).cache.arts().contains_key(promise.pid()) ==> final(self).cache.evs() == old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid()))
[C16] !old(self).cache.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs(), final(self).cache.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] served(old(self).uid(), old(self).cache.evs(), final(self).cache.evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).cache.evs()); served_req(old(self).uid(), promise.pid(), old(self).cache.evs()); }
//@ endif
proof {
  assert forall|pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>| #[trigger] mid.grown(&pre, None) && pre.tracked(old(self).cache, old(self).uid(), promise.pid())
    implies mid.grown(old(self).cache, Some(old(self).uid())) && mid.fwd(promise.pid(), old(self).uid()) by {
    grown_tracked(*old(self).cache, pre, mid, old(self).uid(), promise.pid());
  }
}
//@ fn Resolver::resolve_cloned(promise)
//@ requires
[] old(self).rwf()
//@ ensures
[C09,C10] final(self).rwf()
[] final(self).user == old(self).user && *final(final(self).cache) == *final(old(self).cache)
[C04] final(self).cache.fwd(promise.pid(), old(self).uid())
[C04,C06,C01] final(self).cache.grown(old(self).cache, Some(old(self).uid()))
[C01] ret matches Ok(v) ==> final(self).cache.arts().contains_key(promise.pid()) && cloned(<ArtCan as CanSized<B::Artifact>>::content(final(self).cache.arts()[promise.pid()]), v)
[C01,C04] old(self).cache.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).cache.tracked(old(self).cache, old(self).uid(), promise.pid())
[C01,C06,C05] !old(self).cache.arts().contains_key(promise.pid()) ==> exists|t: RawCache<ArtCan, BCan>| #[trigger] t.tracked(old(self).cache, old(self).uid(), promise.pid())
  && (ret.is_ok() ==> final(self).cache.built_ok(&t, promise.sb(), promise.pid(), final(self).cache.arts()[promise.pid()], final(self).cache.arts()[promise.pid()]))
  && (ret matches Err(e) ==> final(self).cache.built_err(&t, promise.sb(), promise.pid(), e))
[C15] final(self).cache.asked(old(self).cache, old(self).uid(), promise.pid(), promise.sb(), err_of(ret))
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] old(self).cache.arts().contains_key(promise.pid()) ==> final(self).cache.evs() == old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid()))
[C16] !old(self).cache.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs(), final(self).cache.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).cache.evs().push(Ev::Resolve(old(self).uid(), promise.pid())), final(self).cache.evs())
[C16] served(old(self).uid(), old(self).cache.evs(), final(self).cache.evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).cache.evs()); served_req(old(self).uid(), promise.pid(), old(self).cache.evs()); }
//@ endif
proof {
  assert forall|pre: RawCache<ArtCan, BCan>, mid: RawCache<ArtCan, BCan>| #[trigger] mid.grown(&pre, None) && pre.tracked(old(self).cache, old(self).uid(), promise.pid())
    implies mid.grown(old(self).cache, Some(old(self).uid())) && mid.fwd(promise.pid(), old(self).uid()) by {
    grown_tracked(*old(self).cache, pre, mid, old(self).uid(), promise.pid());
  }
}
//@ fn Resolver::my_state()
//@ requires
[] old(self).rwf()
//@ ensures
[C05] *ret == old(self).cache.dyns()[old(self).uid()].bval::<DynState>()
[C05] final(self).cache.dyn_put::<DynState>(old(self).cache, old(self).uid(), *final(ret))
[C05,C01] final(self).cache.same_art(old(self).cache)
[C10] final(self).cache.same_known(old(self).cache)
[C04] final(self).cache.same_deps(old(self).cache)
[] final(self).cache.grown(old(self).cache, Some(old(self).uid()))
[C09] final(self).rwf()
[] final(self).user == old(self).user && *final(final(self).cache) == *final(old(self).cache)
[C16] final(self).cache.evs() == old(self).cache.evs()

//@ fn RawCache::get_mut(promise)
//@ requires
[] old(self).wf() && old(self).fullx(Some(promise.pid()))
//@ ensures
[C12,C01] old(self).arts().contains_key(promise.pid()) && !below(old(self).dependents@, promise.pid(), promise.pid()) ==> final(self).dropped_below(old(self), promise.pid())
  && (ret matches Ok(v) && *v == <ArtCan as CanSized<B::Artifact>>::content(old(self).arts()[promise.pid()])
     && (*final(v) == *v ==> final(self).arts()[promise.pid()] == old(self).arts()[promise.pid()]))
[C12,C01] !(old(self).arts().contains_key(promise.pid()) && !below(old(self).dependents@, promise.pid(), promise.pid())) ==>
  exists|l: RawCache<ArtCan, BCan>| #[trigger] l.dropped_below(old(self), promise.pid()) && final(self).grown(&l, None)
  && (ret matches Err(e) ==> final(self).built_err(&l, promise.sb(), promise.pid(), e))
  && (ret matches Ok(v) ==> exists|c: ArtCan| #[trigger] final(self).built_ok(&l, promise.sb(), promise.pid(), c, final(self).arts()[promise.pid()]) && *v == <ArtCan as CanSized<B::Artifact>>::content(c))
[C12] ret matches Ok(v) ==> final(self).arts().contains_key(promise.pid()) && <ArtCan as CanSized<B::Artifact>>::content(final(self).arts()[promise.pid()]) == *final(v)
[C09,C10] final(self).inv()
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).evs(), final(self).evs())
[C16] ret.is_err() ==> served(promise.pid(), old(self).evs(), final(self).evs())
//@ endif
//@ at entry
//@ if diagnostics
proof { served_all(promise.pid(), old(self).evs()); }
//@ endif
proof {
  let (o, id) = (*old(self), promise.pid());
  alloc::<ArtCan, BCan, B, AP>(promise);
  assert forall|x: Id| #[trigger] o.fwd(id, x) implies below(o.dependents@, id, x) by { below_edge(o.dependents@, id, x); }
  assert forall|l: RawCache<ArtCan, BCan>, x: Id| #[trigger] l.dropped_below(&o, id) implies !(#[trigger] below(l.dependents@, id, x)) by {
    assert forall|b: Id| !#[trigger] l.fwd(id, b) by { if o.fwd(id, b) { below_edge(o.dependents@, id, b); } }
    below_none(l.dependents@, id, x);
  }
  assert forall|l: RawCache<ArtCan, BCan>, f: RawCache<ArtCan, BCan>| #[trigger] l.dropped_below(&o, id) && #[trigger] f.dropped_below(&l, id) implies f.dropped_below(&o, id) by {
    assert forall|x: Id| !#[trigger] below(l.dependents@, id, x) by { }
    assert forall|x: Id| #[trigger] f.arts().contains_key(x) implies o.arts().contains_key(x) && !below(o.dependents@, id, x) && (x != id ==> f.arts()[x] == o.arts()[x]) by { assert(l.arts().contains_key(x)); }
    assert forall|a: Id, b: Id| #[trigger] f.fwd(a, b) <==> o.fwd(a, b) && !below(o.dependents@, id, b) by { assert(f.fwd(a, b) <==> l.fwd(a, b)); }
  }
}
