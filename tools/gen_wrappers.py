#!/usr/bin/env python3
"""Writes verus/core_wrap.vs: the contracts of the public `Cache` methods, from those of `RawCache`."""
import os, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'verus')
src = open(os.path.join(D, 'core.vs')).read()
fns = dict()
for m in re.finditer(r'^//@ fn RawCache::(\w+)\((.*?)\).*\n((?:(?!//@ fn|//@ raw|//@ extra).*\n)*)', src, re.M):
    fns[m.group(1)] = (m.group(2), m.group(3))

def conv(t):
    t = t.replace('old(self).inv()', '@INV@')
    t = re.sub(r'([(,] ?)old\(self\)(?=[,)])', r'\1&old(self).inner', t)
    t = re.sub(r'\bold\(self\)(?!\.inner)', 'old(self).inner', t)
    t = re.sub(r'\bfinal\(self\)', 'final(self).inner', t)
    t = re.sub(r'(?<!\w)self\.', 'self.inner.', t)
    return t

def sect(body, name):
    m = re.search(r'//@ ' + name + r'\n((?:(?!//@(?! (?:if|ifnot|else|endif)\b)).*\n)*)', body)
    return m.group(1) if m else ''

out = ['// generated by tools/gen_wrappers.py\n']
MUT = ['lookup_mut', 'get', 'get_ref', 'get_mut', 'get_cloned', 'dyn_state', 'dyn_state_mut', 'clear_artifacts', 'clear_all', 'purge',
       'invalidate', 'garbage_collection']
REF = ['is_builder_known', 'lookup', 'lookup_ref', 'lookup_cloned', 'get_dyn_state', 'number_of_known_builders']
for f in REF + MUT:
    params, body = fns[f]
    o = '//@ fn Cache::%s(%s)\n' % (f, params)
    if f == 'get_mut':
        o += '//@ attr #[verifier::spinoff_prover]\n'
    ens = conv(sect(body, 'ensures'))
    ens = ''.join(l for l in ens.splitlines(True) if l.strip() and not re.search(r'(wf_leaf|wf_sym|wf_pin|\bwf)\(\)$', l.strip()) and '.leafs()' not in l and 'inner.inv()' not in l)
    if f in REF:
        o += '//@ requires\n[] self.inner.inv()\n//@ ensures\n' + ens
        if f == 'is_builder_known':
            o += '[C10] ret == (self.inner.arts().contains_key(promise.pid()) || self.inner.dyns().contains_key(promise.pid()))\n'
        if f == 'number_of_known_builders':
            o += '[C10] ret as nat == self.inner.arts().dom().union(self.inner.dyns().dom()).len()\n'
            o += '//@ at entry\nassert(self.inner.known().dom() =~= self.inner.arts().dom().union(self.inner.dyns().dom()));\n'
    else:
        o += '//@ requires\n[] old(self).inner.inv()\n//@ ensures\n' + ens
        if f == 'get_mut':
            pass
        else:
            o += '[C04] final(self).inner.fresh_kept(&old(self).inner)\n'
        if f == 'garbage_collection':
            o += '[C08] forall|x: Id| #[trigger] final(self).inner.known().contains_key(x) && final(self).inner.dead(x) ==> final(self).inner.wanted(x)\n'
        if f == 'lookup_mut':
            o += '[C09,C10] final(self).inner.inv()\n'
        else:
            o += '[C09,C10] final(self).inner.inv()\n'
    if f in ('invalidate', 'purge', 'dyn_state_mut'):
        o += """//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && o.cone(id, q) implies o.cone(id, u) by { reach_step(o.dependents@, id, q, u); }
}
"""
    if f == 'lookup_mut':
        o += """//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && below(o.dependents@, id, q) implies below(o.dependents@, id, u) by { hits_step(o.dependents@, o.dependents@[id]@, q, u); }
  assert forall|u: Id| #[trigger] o.fwd(id, u) implies below(o.dependents@, id, u) by { below_edge(o.dependents@, id, u); }
}
"""
    if f == 'garbage_collection':
        o += """//@ at exit
proof {
  let n = self.inner;
  assert forall|x: Id| #[trigger] n.known().contains_key(x) && n.dead(x) implies n.wanted(x) by { wanted_all(n, x); }
}
"""
    out.append(o)
for f in ('CacheOwned::new', 'CacheOwned as Default::default'):
    out.append('//@ fn %s()\n//@ ensures\n[C09,C10] ret.inner.inv()\n[C10,C11] ret.inner.known().dom() == Set::<Id>::empty()\n' % f)
new = '\n'.join(out)
p = os.path.join(D, 'core_wrap.vs')
if not os.path.exists(p) or open(p).read() != new:
    open(p, 'w').write(new)
