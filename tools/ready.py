READY = {
 'C01': 'generated-input search: model-based operation sequences (list-of-tuples model), differential against numpy',
 'C02': 'generated-input search: set / dictionary / permutation models and algebraic relations',
 'C03': 'generated-input search: list-of-lists model of packs, explicit id lists for part definitions',
 'C04': 'generated-input search: differential against numpy, defining equations, inverse conversions',
 'C07': 'generated-input search: face/edge dictionaries over independent face tables, union-find components',
 'C08': 'generated-input search: list-of-cells-as-vertex-coordinates model, cluster partition, exact correspondence maps',
 'C09': 'generated-input search: list-of-(type, connectivity) model, documented comparison policies evaluated pairwise',
 'C10': 'generated-input search: exact polygon/polyhedron formulas and analytic arcs of circle, divergence theorem, box predicates',
 'C24': 'generated-input search: exact convex clipping as reference, row and column sums, transposition symmetry',
 'C25': 'stateful generated-input search: model of the matrix and nature formulas, conservation laws',
 'C26': 'generated mesh pairs against exact clipping with dual cells, exhaustive point location and affine reproduction',
 'C16': 'property-based testing (differential: structured mesh vs its unstructured expansion and an index-arithmetic model)',
 'C05': 'property-based testing of point-location and bounding-box searches against brute force',
 'C06': 'property-based testing with generated formulas against an independent parser and evaluator; malformed-text fuzzing',
 'C20': 'property-based testing of generated fields against array-level reference operations and a model of times',
 'C22': 'property-based testing with a canonical geometric view (entity -> values) compared before and after each restructuring',
 'C21': 'property-based testing: random fields against exact integrals and interpolation models',
 'C13': 'property-based testing: random meshes and points against exhaustive geometric tests',
 'C12': 'property-based testing: generated meshes with chosen inverted cells; which cells are inverted is known by construction',
 'C27': 'property-based testing: objects built from specifications, one generated edit each; dumps through getters as the oracle of copies',
 'C35': 'property-based testing: random cells against the published formulas, and metamorphic relations (similarity, renumbering)',
 'C33': 'property-based testing: random streams of fields against batch formulas (numpy)',
 'C32': 'property-based testing: generated samples of primitives with known parameters, any triangulation with internal-consistency and reference-model oracles, invariance relations, linear algebra helpers against numpy',
 'C11': 'property-based testing: generated 1D-3D meshes of all types; exact measures/centroids per cell and mapping from an independent geometry model, reference quadratisation, set of merged nodes/faces as oracle',
 'C37': 'property-based testing: random queries on random objects against dumps, time labels, reference counts and heap growth; random sharing histories against an ownership model',
 'C17': 'property-based testing: random bases, paths and numberings against a model of the extrusion; mapped extruded meshes compared with the 3D mesh they were built from',
 'C18': 'property-based testing: differential testing of single type meshes against MEDCouplingUMesh and Python reference models',
 'C23': 'property-based testing: shape functions, derivatives, Gauss rules and localizations against independent interpolation spaces, numerical differentiation and exact integrals; histories of localization assignments against a model',
 'C14': 'property-based testing: exact areas, point membership and conformity of planar intersections with straight and circular edges',
 'C19': 'property-based testing: random trees of patches, criteria, transfers and histories of synchronisations compared with a model of integer boxes',
 'C31': 'property-based testing: random graphs and meshes through BOOST and METIS renumbering against permutation/relabelling oracles, random partitioned MED data reassembled against the original',
 'C15': 'property-based testing: random convex 3D and surface meshes cut, clipped, united and conformized, against exact plane/cell sections and volumes',
 'C28': 'property-based testing: generated meshes, group edits and write histories against a set model',
 'C29': 'property-based testing: generated fields, profiles, time steps and write histories against a model',
 'C36': 'property-based testing and fuzzing under AddressSanitizer: tables of invalid calls on generated operands (must raise, operands compared with their copies), operations of the other properties replayed with memory checking',
 'C34': 'property-based testing: generated meshes, distributions over 2-5 MPI processes and exchange histories, against the sequential interpolation / the requested permutation',
}
NOTES = {}
