"""The verification units, and which of them decides which property."""

CORE_FILES = ['src/lib.rs', 'src/canning.rs', 'src/blueprint.rs', 'src/cache.rs', 'src/cache/internal.rs', 'src/utils.rs']
CORE_SPECS = ['prelude.vs', 'unit_core.vs', 'traits.vs', 'core.vs', 'core_wrap.vs', 'utils_new.vs', 'utils.vs']
DOC_FILES = ['src/lib.rs', 'src/canning.rs', 'src/blueprint.rs', 'src/diagnostics/mod.rs', 'src/diagnostics/textual.rs', 'src/diagnostics/visgraph.rs']

UNITS = {
    'core': dict(features='mut_box', files=CORE_FILES, specs=CORE_SPECS),
    'core_diag': dict(features='diagnostics,mut_box', files=CORE_FILES + ['src/diagnostics/mod.rs'], specs=CORE_SPECS + ['diag.vs']),
    'cans': dict(features='unsized,diagnostics', files=['src/lib.rs', 'src/canning.rs', 'src/blueprint.rs', 'src/utils.rs', 'src/diagnostics/mod.rs'],
                 specs=['traits.vs', 'cans.vs', 'utils_new.vs', 'utils_from.vs', 'handles.vs']),
    'simple': dict(features='unsized,simple', files=['src/lib.rs', 'src/canning.rs', 'src/blueprint.rs', 'src/rc.rs', 'src/arc.rs', 'src/boxed.rs'], specs=['traits.vs', 'cans.vs', 'simple.vs']),
    'doc': dict(features='diagnostics', files=DOC_FILES, specs=['traits.vs', 'doc.vs']),
    'doc_tynm': dict(features='diagnostics,tynm', files=DOC_FILES, specs=['traits.vs', 'doc.vs']),
}

# (features of the replayer, toolchain, mode)
PLAIN = ('', None, 'search')
DIAG = ('diag', None, 'search')
# without debug assertions
REL = ('rel', None, 'search')
DIAG_REL = ('diag,rel', None, 'search')

TRUST_COMMON = [
    'Verus 0.2026.09.13 and its bundled z3: soundness of the verifier and solver',
    'extract/: the syntactic extraction of the functions (desugarings and what it drops are listed in DESIGN.md)',
    'verus/prelude.vs: contracts of std functions (HashMap/HashSet/Rc/Option/Result wrappers), allocation addresses are unique while alive, pointer casts keep the address',
    'verus/core.vs: Box<dyn Any> gives back exactly the value that was put in if the type matches; containers keep their contract (unit cans verifies Rc, Arc, Box)',
    'contract of user code: Builder::build touches the cache only through the resolver it is given; Debug, Drop and Clone of user types do not touch the cache',
]

TECH = 'contract-based deductive verification of the extracted source with Verus (z3)'
NOTE = ('All obligations of all functions of the unit are discharged by Verus for all inputs, histories and dependency graphs; '
        'assumes the contracts of std containers, of the can traits and of user builders (see trusted_base in the evidence). '
        'A bounded random replay on the real code runs along only to find failing inputs.')
PROPS = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12'):
    PROPS[p] = dict(units=['core', 'core_diag'], searches=[PLAIN, DIAG, REL], level='proof', trusted=list(TRUST_COMMON), assumptions=[], technique=TECH, note=NOTE)

TRUST_CANS = TRUST_COMMON[:2] + [
    'verus/cans.vs: models of std Rc, Arc, Box, their weak handles and dyn Any (new, clone, downgrade, upgrade, downcast*, deref, unsizing keep the allocation; an Rc<T> holds a T)',
    'verus/cans.vs: the trait objects dyn Any and dyn Builder are each one opaque type; ctag/kind name what a can is tagged with (definitions)',
    'where a lemma has only the bound `: Clone` of a type, it is taken for the impl of Clone that is proved in the same unit',
]
PROPS['C16'] = dict(units=['core_diag', 'cans'], searches=[DIAG, ('s16', None, 'c16'), DIAG_REL], level='proof', trusted=sorted(set(TRUST_COMMON + TRUST_CANS)) + [
    'verus/diag.vs: the doctor is user code that may do anything but touch the cache; its log is by definition the sequence of calls it received; unsizing it to a trait object keeps it the same doctor',
    'verus/handles.vs: hashing an address is a function of the address; equal allocations compare equal as wide pointers (one vtable per allocation)'],
    assumptions=[], technique=TECH, note=NOTE + ' The doctor is a type parameter of the cache; the extraction replaces it by one opaque type.')

PROPS['C13'] = dict(units=['cans', 'core', 'core_diag'], searches=[('s13', None, 'c13'), ('s13,nightly', 'nightly', 'c13'), ('s13,rel', None, 'c13'), PLAIN], level='proof',
                    trusted=sorted(set(TRUST_COMMON + TRUST_CANS)), assumptions=[
                        'two builders that are alive at the same time in different bins have different addresses (allocation; Rc and Arc put even zero-sized values into an allocation of their own)'],
                    technique=TECH,
                    note='Identity of a blueprint is proved to be the address of its bin through every constructor, clone and conversion, and each record of the cache to pin that address by a weak handle; that distinct live allocations have distinct addresses is assumed of std.')
PROPS['C14'] = dict(units=['cans'], searches=[('s14', None, 'c14'), ('s14,nightly', 'nightly', 'c14'), ('s14,rel', None, 'c14')], level='proof', trusted=TRUST_CANS, assumptions=[],
                    technique=TECH,
                    note='Every function of the can impls for Rc, Arc, Box and BuilderArtifact is proved against the contract of its trait; rests on models of the std types (see trusted_base). Enabled feature: unsized (nightly), which has all impls.')

PROPS['C15'] = dict(units=['core', 'core_diag', 'cans', 'simple'], searches=[('s15', None, 'c15'), ('s15,rel', None, 'c15')], level='proof', trusted=sorted(set(TRUST_COMMON + TRUST_CANS)) + [
    'verus/utils.vs: never::Never has no values; the closure of a functional builder has no precondition (it may be called in any state); `ran` names what the closure can do (definition)',
    'verus/simple.vs: the resolver a simplified builder is given is opaque (the blanket impls only hand it on)',
], assumptions=['clones of user types are whatever their Clone impl yields'],
    technique=TECH,
    note='The build functions of the utility builders are proved against the contracts of the resolver in the same unit, so that what the cache stores for them is what the property says; the documented panic of the redeeming builder is proved to be reached only if its inner request failed and nothing is kept. History lemma for the redeeming builder in verus/utils.vs.')

PROPS['C17'] = dict(units=['doc', 'doc_tynm'], searches=[('s17', None, 'c17'), ('s17,rel', None, 'c17')], level='proof', trusted=TRUST_COMMON[:2] + [
    'verus/doc.vs: the formatting macros are expanded by the extraction into the texts of the format string and the texts of the arguments',
    'verus/doc.vs: what {}, {:?} and {:p} print: numbers are printed to base 10 (dec), addresses as 0x and to base 16 (ptr_text; that these texts are digits and tell numbers apart is proved), the Debug text of a str is in double quotes with those within (and backslashes) escaped; str::replace; str and String are one type of texts',
    'verus/doc.vs: the reader of graphs (lexer and statements of the DOT language, without comments, HTML strings, ports and subgraphs, which the doctor never writes) is the definition of a well-formed graph',
    'crate tynm: the abbreviation of a type name is any function of the name and the two numbers',
], assumptions=['the output takes all that is written to it (the doctors panic otherwise)', 'no more than 2^64 events are reported to one doctor',
                'the graph doctor starts on an output to which nothing was written; dropping it runs its Drop impl'],
    technique=TECH,
    note='Each event function of both doctors is proved for every text, every option and every history: the textual doctor to append one record that has the required texts in order and ends its line; the graph doctor to keep its output, as read by a reader of DOT, between two statements, to add exactly the edge of the event, and to name the node of a build as no node before; finish, into_inner and drop to make it one complete graph.')

NA = {}
