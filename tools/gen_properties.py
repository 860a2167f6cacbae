#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
I='src/cache/internal.rs'; C='src/cache.rs'
H='every finite sequence of public cache operations, over every set of builders (any dependency graph, any artifact/state/error type, builders that resolve conditionally, fail, or mutate their state)'
ART=('artifacts','artifact stored per builder id',I)
DYN=('dyn_states','dynamic state per builder id',I)
DEP=('dependents / dependencies','the dependency relation and its reverse',I)
KN=('known_builders','weak builder handle per recorded builder',I)
LEAF=('known_leaf_builder','builders without dependents, the candidates of garbage collection',I)

p('C01','A cached artifact is served without rebuilding, by every accessor alike',
 'Once a builder has produced its artifact, every later request for it (get, get_ref, get_cloned, lookup, lookup_ref, lookup_cloned and the resolver variants, through any clone of the blueprint) yields that very artifact and does not run the build again, until an operation that is documented to drop it. When no artifact is cached, a get or resolve runs that builder\'s own build exactly once and caches its success, whereas a lookup returns nothing, builds nothing and adds nothing to the cache.',
 ['histories','inputs','programs'],H,
 'The tests look at a handful of fixed two- and three-builder graphs; that no accessor rebuilds, serves another builder\'s artifact, or disagrees with another accessor must hold for every graph and history.',
 [I,C],[('RawCache::lookup/lookup_ref/lookup_cloned',I),('RawCache::get/get_ref/get_cloned/build',I),('Cache and Resolver wrappers',C)],[ART],['Cache::get*','Cache::lookup*','Resolver::resolve*'])
p('C02','Invalidation reaches every transitive dependent',
 'After a builder is invalidated (by invalidate, by purge, or by taking mutable access to its dynamic state), neither its own artifact nor the artifact of any builder that directly or transitively used it remains in the cache, so the next request for any of them builds anew. Builders that used it only before an earlier invalidation of themselves need not be affected.',
 ['histories','inputs','programs'],H,
 'Completeness of the transitive closure over arbitrary graphs (diamonds, shared leaves, cycles of stale edges, deep chains) and after arbitrary earlier invalidations; tests invalidate a few fixed chains and diamonds.',
 [I,C],[('RawCache::invalidate_by_id work list',I),('RawCache::invalidate/purge/dyn_state_mut',I)],[ART,DEP],['Cache::lookup_ref after Cache::invalidate/purge/dyn_state_mut'])
p('C03','Invalidation removes nothing else',
 'Invalidating a builder (by invalidate, by purge, or by taking mutable access to its dynamic state) keeps the artifact of every builder that did not directly or transitively use it since that user was last invalidated. It keeps the dynamic state of every builder, except the purged one\'s own, and keeps the record of every builder other than a purged one.',
 ['histories','inputs','programs'],H,
 'A frame condition: "nothing else changed" quantifies over all other builders and all graphs, tests only look at the builders they named.',
 [I,C],[('RawCache::invalidate_by_id removing only the dependents closure and the severed edges',I)],[ART,DYN,DEP,KN],['Cache::lookup_ref','Cache::get_dyn_state'])
p('C04','Every resolved artifact is tracked, no stale artifact is ever served',
 'Whenever a builder resolves another one during its build (through any resolve variant, whether the other one was cached, had to be built, or failed), it becomes a dependent of that other builder, from then on until it is itself invalidated. Consequently, whenever an artifact is served from the cache, every artifact it was built from, directly or transitively, has been neither invalidated nor replaced since (builders whose build recursively requests their own artifact are excepted).',
 ['histories','inputs','programs'],H+'; builders whose build does not recursively request their own artifact',
 'The guarantee is about all histories that interleave builds, cache hits, failures and invalidations; tests only cover a build followed by one invalidation.',
 [I,C],[('Resolver::resolve/resolve_ref/resolve_cloned -> track_dependency',C),('RawCache::track_dependency',I),('RawCache::invalidate_by_id keeping both directions in sync',I)],[DEP,ART],['Cache::get* / lookup* after any history'])
p('C05','Dynamic state: created once, kept, private to its builder',
 'A builder\'s dynamic state is created from its initializer exactly when first needed, and then survives builds, failing builds, rebuilds and invalidations of any builder, until that builder is purged, garbage collected or the whole cache is cleared. During its build a builder sees and modifies exactly its own state, and outside of it the state only changes through the mutable accessor, which drops the artifacts built from it, while reading the state never drops an artifact and reading an absent state with get_dyn_state creates nothing.',
 ['histories','inputs','programs'],H,
 'State identity and lifetime over all histories; the tests use one counter builder with a few steps.',
 [I,C],[('RawCache::ensure_dyn_state/dyn_state/dyn_state_mut/get_dyn_state',I),('Resolver::my_state',C),('RawCache::dyn_state_cast_mut/dyn_state_cast_ref',I)],[DYN],['Cache::dyn_state*','Cache::get_dyn_state','Resolver::my_state'])
p('C06','A failing build leaves no trace but its error',
 'If a build fails, the requester receives exactly the error the builder returned, no artifact is stored for the failing builder, and every artifact that was cached before stays cached and unchanged. The failure itself is not cached: the next request runs the build again, and an error is only ever returned for a builder without cached artifact.',
 ['fault_sequences','histories','programs'],H+', with any pattern of failing builds',
 'Any builder of any graph may fail at any time; the tests have a single failing builder without dependents.',
 [I,C],[('RawCache::build inserting the artifact only on success',I),('RawCache::get/get_ref/get_mut/get_cloned',I)],[ART],['Cache::get* returning Err','Cache::lookup* afterwards'])
p('C07','Garbage collection never touches reachable builders',
 'A garbage collection removes neither the artifact, nor the dynamic state, nor the record of any builder that can still be reached through a live blueprint (held by the program, by another live builder, or inside a dynamic state or artifact of a live builder). Later requests for such builders behave as if the collection had not happened.',
 ['histories','inputs','programs'],H+', any subset of the blueprints dropped',
 'Which builders are alive is arbitrary; tests drop one chosen blueprint of a tiny graph.',
 [I,C],[('RawCache::garbage_collection testing the weak handles',I)],[KN,LEAF,ART,DYN],['Cache::lookup_ref, Cache::get_dyn_state, Cache::is_builder_known around Cache::garbage_collection'])
p('C08','One garbage collection removes everything unreachable',
 'After a single garbage collection no builder without remaining references stays recorded, neither with an artifact nor with a dynamic state, unless some builder that is still reachable used it (directly or transitively) since that builder was last invalidated. This includes whole chains of builders that became unreachable together, without needing several collections (builders that depend on each other in a cycle are excepted).',
 ['histories','inputs','programs'],H+', any subset of the blueprints dropped, including chains only held by other builders; acyclic dependency relation',
 'Needs unreachable chains of arbitrary length and shape and arbitrary earlier histories; the tests only drop single builders.',
 [I,C],[('RawCache::garbage_collection over known_leaf_builder',I),('leaf bookkeeping in track_dependency/invalidate_by_id/clear_artifacts/purge',I)],[LEAF,KN],['Cache::number_of_known_builders after Cache::garbage_collection'])
p('C09','The cache never panics or hangs by itself',
 'No sequence of public cache operations makes the cache itself panic or loop forever, whatever the dependency graph, whichever builders were never requested, failed, were dropped, purged or invalidated before, and with debug assertions enabled. In particular invalidation and garbage collection terminate for every dependency relation, cyclic ones included.',
 ['histories','inputs','programs'],H,
 'Panics hide behind internal lookups that are only reached by particular histories (e.g. invalidating a builder that was never built, then collecting); tests cover few histories.',
 [I,C],[('expect/unwrap/index sites and debug assertions',I),('Resolver::my_state',C),('the work list loops',I)],[DEP,LEAF,KN,ART,DYN],['any public method of Cache and Resolver'])
p('C10','The accounting of known builders is exact',
 'A builder is reported as known exactly if its artifact or its dynamic state is recorded in the cache, and the number of known builders is exactly the number of distinct builders for which that holds. Builds (also failing ones) make the builder and all builders it requested known, invalidations never change what is known, purging forgets exactly the purged builder, and lookups and other read-only queries change nothing.',
 ['histories','inputs','programs'],H,
 'An invariant over all histories; the tests compare the count after a few fixed steps.',
 [I,C],[('RawCache::make_builder_known and the removals in purge/garbage_collection/clear_all',I),('RawCache::is_builder_known/number_of_known_builders',I)],[KN,DYN,ART],['Cache::is_builder_known','Cache::number_of_known_builders'])
p('C11','Clearing and purging have exactly their documented extent',
 'Clearing the artifacts drops every artifact and keeps every dynamic state and every record, clearing everything leaves a cache that behaves like a newly created one, and purging a builder drops exactly its own artifact, dynamic state and record plus the artifacts of its direct and transitive dependents. Afterwards all other guarantees (caching, dependency tracking, invalidation, garbage collection) hold as before for whatever is built next.',
 ['histories','inputs','programs'],H,
 'The bulk operations rewrite all bookkeeping at once; a left-over only shows in later operations of particular histories.',
 [I,C],[('RawCache::clear_artifacts/clear_all/purge',I)],[ART,DYN,DEP,KN,LEAF],['Cache::clear_artifacts','Cache::clear_all','Cache::purge'])
p('C12','Mutable artifact access drops exactly the dependents',
 'Taking mutable access to a cached artifact drops the artifacts of all builders that directly or transitively used it, and keeps that artifact itself, all other artifacts, and every dynamic state. A modification made through it is seen by all later requests, get_mut builds the artifact first if it is absent (or passes on the build\'s error), and lookup_mut of an absent artifact returns nothing and builds nothing.',
 ['histories','inputs','programs','configurations'],H+' (mutable artifact access being enabled and the artifact container allowing it)',
 'The existing tests never use mutable access to an artifact that has dependents.',
 [I,C],[('RawCache::lookup_mut/get_mut/invalidate_dependents',I)],[ART,DEP],['Cache::lookup_mut','Cache::get_mut'])
p('C13','Blueprint identity: clones and conversions denote the same builder',
 'All clones and conversions (to an unsized, trait-object or dynamic blueprint) of one blueprint have the same id, compare and hash equal, and share one artifact and one dynamic state in any cache. Blueprints created separately are never confused with each other, even if their builders are equal in value or zero-sized, and also not when one of them takes the place of a builder dropped earlier that the cache still records.',
 ['inputs','programs','configurations','histories'],'every builder type (including zero-sized and trait-object builders), container, number of clones and chain of conversions',
 'Identity must hold for every type, conversion path and allocation pattern; the tests compare a few sample blueprints.',
 ['src/blueprint.rs','src/canning.rs','src/lib.rs',I],[('Blueprint/BlueprintUnsized/BlueprintDyn::id, clone, into_unsized, from_*',"src/blueprint.rs"),('BuilderId::new','src/lib.rs'),('Can::bin_as_ptr/CanBase::can_as_ptr','src/canning.rs')],[KN],['Promise::id','PartialEq/Hash of blueprints','sharing of artifacts in a Cache'])
p('C14','Containers give back exactly what was put in',
 'For each supplied container (Rc, Arc, Box and the blueprint container), packing a value and unpacking it as its own type yields the same value at the same address, through owned, shared and mutable access alike, while unpacking it as any other type yields nothing. A weak handle of a reference-counted container gives the same value back as long as some strong one exists, and nothing afterwards.',
 ['inputs','programs','configurations'],'every payload type and value, every supplied container, any mixture of payload types in one container type',
 'Must hold for every payload type and value; there are no direct tests for the containers.',
 ['src/canning.rs'],[('impls of Can, CanSized, CanRef, CanRefMut, CanStrong, CanBuilder for Rc/Arc/Box/BuilderArtifact','src/canning.rs')],[],['the public traits of the canning module'])
p('C15','Utility builders and the simplified builder trait do what they say',
 'The constant builder always yields its value, the configurable one its current configuration, the functional one what its closure returns on its own state, the forwarding, cloning and feigning ones pass on their inner builder\'s artifact (and error) without altering it, and a simplified builder yields exactly what its build returned. The redeeming builder passes on each success of its inner builder, and on failure of the inner builder yields the most recently passed-on artifact, or else the configured default.',
 ['histories','inputs','fault_sequences','programs'],'every artifact, state and error type, every inner builder, every pattern of successes, failures, reconfigurations and invalidations',
 'The tests instantiate each utility once or twice; "most recent success" quantifies over all histories of the inner builder.',
 ['src/utils.rs','src/rc.rs','src/arc.rs','src/boxed.rs'],[('Builder impls of RedeemingBuilder, FunctionalBuilder, ConstBuilder, ConfigurableBuilder, ClonedBuilder, ForwardingBuilder, FeigningBuilder','src/utils.rs'),('blanket impls for SimpleBuilder and Builder','src/rc.rs')],[DYN],['Cache::get* of a utility builder'])
p('C16','A doctor sees exactly the events that happened, and changes nothing',
 'An attached doctor is told, in the order in which things happen: one resolve event with the using and the used builder per request a builder makes during its build, before that request is served; one build event with builder and artifact per successful build, after all events of that build; one invalidate event per invalidation, purge or mutable state access requested on the cache, with the builder given; and one clear event per clearing of everything. Cache hits, failing builds, lookups and state accesses by themselves cause no build event, and whether and which doctor is attached never changes any result of the cache.',
 ['histories','programs','configurations'],H+', any attached doctor',
 'The tests replay one fixed sequence for the two bundled doctors.',
 [I,C,'src/diagnostics/mod.rs'],[('doctor calls in track_dependency, build, purge, invalidate, clear_all',I),('Doctor trait, BuilderHandle, ArtifactHandle','src/diagnostics/mod.rs')],[('doctor','the attached event receiver',I)],['calls received by a user supplied Doctor'])
p('C17','The bundled doctors write one well-formed record per event',
 'The textual doctor writes, for each event, one separate complete record (ending its line) that names the builders involved, and with generation and sequence numbers where applicable; the sequence number counts builds within a generation, and every clear and invalidation starts the next generation at sequence number zero. The graph doctor\'s complete output is always one well-formed graph, whatever characters the names and debug texts of builders and artifacts contain, in which each resolve is an edge from user to used and each build a node of its own, tied to its builder.',
 ['inputs','histories','configurations'],'every sequence of events, every option combination, every debug text (quotes, backslashes, line breaks)',
 'Tests compare the output of one fixed run with harmless debug texts.',
 ['src/diagnostics/textual.rs','src/diagnostics/visgraph.rs'],[('Doctor impl for TextualDoc','src/diagnostics/textual.rs'),('Doctor impl for VisgraphDoc, finish, Drop','src/diagnostics/visgraph.rs')],[('count','generation and sequence number','src/diagnostics/textual.rs')],['the bytes written to the doctor\'s output'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
