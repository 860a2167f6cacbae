I = 'src/cache/internal.rs'
C = 'src/cache.rs'
K = 'src/canning.rs'
B = 'src/blueprint.rs'
U = 'src/utils.rs'
L = 'src/lib.rs'
DM, DT, DV = 'src/diagnostics/mod.rs', 'src/diagnostics/textual.rs', 'src/diagnostics/visgraph.rs'
