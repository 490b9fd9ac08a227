#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One P(...) per property."""
import json
M='src/MEDCoupling/'; I='src/INTERP_KERNEL/'; L='src/MEDLoader/'
OUT=[]
def P(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    OUT.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ['return values and resulting objects of the public C++/Python API'],hook_needed=None)))
A=['inputs']; H=['inputs','histories']

P('C01','Array selection, permutation and assignment behave as plain indexing',
'For every array type (double, float, 32/64-bit integer, char) and every number of tuples and components, an operation that selects, slices, reorders, duplicates, aggregates, melds, transposes or assigns part of the array (by list, by mask of ids, by start/stop/step slice of any sign, in old-to-new or new-to-old convention) yields exactly the tuples, and the component and array names, that the same operation yields on a plain list of tuples. Tuples and components not designated are left untouched. Any sequence of such operations on one array keeps agreeing with the list model.',
H,'all array types, shapes (0 tuples to thousands, 1 to several components), id lists, slices and operation sequences',
'Tests use a handful of fixed arrays, mostly one or two component, and one operation at a time; the claim is over all shapes, ids, step signs and sequences.',
[M+'MEDCouplingMemArray.txx',M+'MEDCouplingMemArray.cxx',M+'MEDCouplingMemArray.hxx',M+'MEDCouplingMemArrayChar.cxx','src/MEDCoupling_Swig/MEDCouplingMemArray.i'],
[('DataArrayTemplate selection/renumbering/setPartOfValues',M+'MEDCouplingMemArray.txx'),('MemArray storage',M+'MEDCouplingMemArray.txx')])

P('C02','Integer id arrays obey set, search, permutation and partition algebra',
'On integer arrays, union, intersection, difference, complement, uniqueness, counting, occurrence ranking and value search return exactly the ids a set/dictionary model returns, in the documented order. Permutation inversion, reduction, composition, checking, old-to-new/new-to-old conversion, sorting and the construction of permutations between two arrays are mutually consistent (inverse of inverse, composition equals sequential application) and reject non-permutations. Offsets, ranges, partitions and chains computed from an array rebuild that array.',
A,'all integer arrays (negative values, duplicates, empty, unsorted) of both integer widths and all parameters',
'Fixed short samples; wrong handling of duplicates, negative values, boundary values or empty operands is invisible to them.',
[M+'MEDCouplingMemArray.txx',M+'MEDCouplingMemArray.cxx'],[('DataArrayDiscrete',M+'MEDCouplingMemArray.txx')])

P('C03','Indexed arrays, skyline arrays and part definitions behave as lists of packs',
'Extracting, replacing, removing, thresholding, grouping, aggregating or appending packs of an (array, index) pair or of a two- or three-level skyline array gives exactly what the same operation gives on a list of lists, and indices stay consistent. A part definition (slice or explicit list), its composition and its simplification denote exactly the ids of the equivalent explicit list.',
H,'all lists of packs (including empty packs), id lists, slices with any step and operation sequences',
'Tests use two or three fixed pack lists and single operations.',
[M+'MEDCouplingMemArray.txx',M+'MEDCouplingSkyLineArray.cxx',M+'MEDCouplingPartDefinition.cxx'],[('indexed array utilities',M+'MEDCouplingMemArray.txx'),('MEDCouplingSkyLineArray',M+'MEDCouplingSkyLineArray.cxx')])

P('C04','Array arithmetic, reductions, tensor and coordinate maths match the definitions',
'Element-wise arithmetic (out-of-place and in-place, with scalars, one-component or one-tuple operands), integer division/modulus/power, extrema with their positions, sums, per-tuple and per-pack reductions, norms, affine maps and cumulative sums equal their mathematical definition on every array. Vector and symmetric-tensor operations (dot, cross, magnitude, determinant, inverse, eigenvalues and eigenvectors, trace, deviator, contracted product) satisfy their defining equations, and cartesian/polar/cylindrical/spherical conversions are mutual inverses.',
A,'all arrays and admissible shapes','Tests check a few fixed vectors; operand broadcasting, sign and tie cases are sampled at one or two points.',
[M+'MEDCouplingMemArray.cxx',M+'MEDCouplingMemArray.txx',I+'InterpKernelMatrixTools.cxx'],[('DataArrayDouble arithmetic and tensor methods',M+'MEDCouplingMemArray.cxx')])

P('C05','Proximity and bounding-box searches on point clouds are exact and complete',
'In 1, 2 and 3 dimensions, searches for coincident tuples, distinct values, tuples near given tuples, closest tuple, points in other point sets, nodes on a line or plane, and interacting bounding boxes return every item that brute-force distance evaluation returns for the given tolerance and no other. Results are independent of tuple order and of how the search tree happens to be split.',
A,'all point sets (clustered, aligned, duplicated, spread over orders of magnitude), query points and tolerances, away from exact ties',
'A search tree bug shows only for particular point distributions and sizes; tests use small fixed clouds.',
[M+'MEDCouplingMemArray.cxx',I+'BBTree.txx',I+'BBTreePts.txx',I+'BBTreeDst.txx',M+'MEDCouplingPointSet.cxx'],[('bounding-box trees',I+'BBTree.txx')])

P('C06','Formula strings evaluate to their mathematical meaning',
'A formula applied to an array or field, or used to fill a field from mesh coordinates, gives on every tuple the value defined by usual precedence, associativity, functions, comparisons and unit vectors, whichever evaluation variant is used (per tuple, per component, with named variables, with constant expressions, with the compiled 32/64-bit fast path). Malformed formulas, unknown functions and missing variables are rejected with an exception and leave the array unchanged.',
A,'all formulas of the grammar, variable bindings and operand values','Tests contain a few dozen fixed formulas.',
[I+'ExprEval/InterpKernelExprParser.cxx',I+'ExprEval/InterpKernelFunction.cxx',I+'ExprEval/InterpKernelValue.cxx',I+'ExprEval/InterpKernelAsmX86.cxx',I+'ExprEval/InterpKernelUnit.cxx',M+'MEDCouplingMemArray.cxx'],[('ExprParser',I+'ExprEval/InterpKernelExprParser.cxx')])

P('C07','Descending connectivity, skin and neighbourhood describe the true mesh topology',
'For a mesh of any cell types (linear, quadratic, polygons, polyhedra) the lower-dimension mesh contains each distinct face/edge exactly once, descending and reverse arrays are mutual transposes and name exactly the sub-cells of each cell with the correct orientation sign, and the same holds for edges of 3D cells. Skin, boundary nodes and cells, cell and node neighbourhoods, reverse nodal connectivity, spread zones and connected components, graph and 1D chain ordering equal those computed from the definition.',
A,'all unstructured meshes of dimension 1 to 3, all cell types, any node and cell numbering','Tests use a few regular meshes; each cell type has its own sub-cell table and each combination of shared sub-cells is an input.',
[M+'MEDCouplingUMesh.cxx',M+'MEDCouplingUMesh_internal.cxx',I+'CellModel.cxx',M+'MEDCouplingPointSet.cxx'],[('buildDescendingConnectivity*',M+'MEDCouplingUMesh.cxx'),('cell type tables',I+'CellModel.cxx')])

P('C08','Node merging, compaction and renumbering never move or reconnect a cell',
'Merging coincident nodes, dropping unused nodes, renumbering nodes or cells, duplicating nodes and putting meshes on common coordinates change only numbering: each cell keeps its type and, node by node, the coordinates of its vertices (within the merge tolerance), and the returned correspondence arrays are exact. Merged nodes are exactly the groups within tolerance, the mesh ends with no unused node after compaction, and fields or families carried by the same renumbering follow.',
A,'all meshes with any duplicated, unused and permuted nodes, all permutations and tolerances away from ties','Tests check fixed meshes and permutations.',
[M+'MEDCouplingPointSet.cxx',M+'MEDCouplingUMesh.cxx',M+'MEDCoupling1GTUMesh.cxx'],[('mergeNodes/zipCoords/renumberNodes',M+'MEDCouplingPointSet.cxx'),('renumberCells',M+'MEDCouplingUMesh.cxx')])

P('C09','Extracting, replacing, splitting, merging and comparing cells is exact',
'Extracting cells by ids, slice, nodes or type gives those cells in that order with unchanged connectivity; replacing part of a mesh affects only that part; splitting by type or partition and merging back restores the mesh; aggregation concatenates cells and shifts nodes. Identical-cell detection, inclusion tests, duplicate-cell removal, fusion and mesh-equivalence checks report exactly the coincidences defined by the requested comparison policy with exact correspondence arrays.',
A,'all meshes, id lists (repeated, unordered, empty), slices, node subsets and comparison policies','Fixed meshes and ids in tests.',
[M+'MEDCouplingUMesh.cxx',M+'MEDCouplingUMesh_internal.cxx',M+'MEDCouplingPointSet.cxx',M+'MEDCouplingMesh.cxx'],[('buildPartOfMySelf/MergeUMeshes/findCommonCells/areCellsIncludedIn',M+'MEDCouplingUMesh.cxx')])

P('C10','Cell measures, barycentres, diameters and bounding boxes are geometrically exact',
'Length, area and volume, centre of mass, iso-barycentre, diameter, bounding box and unit normal of every cell type, polygon and polyhedron equal the exact geometric values for flat-faced cells, with the sign given by orientation when asked. They are equivariant under translation, rotation and scaling, additive over a subdivision, and independent of node numbering, of the starting node of the cell and of whether the cell is stored as a fixed type or as a polygon/polyhedron.',
A,'all cells of all geometric types in 1D, 2D, 3D and surfaces in 3D','Tests check a couple of cells per type with hand-computed values.',
[M+'MEDCouplingUMesh.cxx',I+'VolSurfFormulae.hxx',I+'VolSurfUser.txx',I+'VolSurfUser.cxx',I+'DiameterCalculator.cxx',I+'InterpolationUtils.hxx'],[('computeVolSurfOfCell*',I+'VolSurfUser.txx')])

P('C11','Cell type conversions preserve the geometry of the mesh',
'Converting cells to polygons/polyhedra and back, splitting into simplices, tetrahedrizing with any policy, converting between linear and quadratic, reducing degenerated cells, simplifying polyhedra, tessellating curved edges and removing collinear nodes keep the region covered by each original cell (same measure and centre of mass, no change of orientation) and produce cells of the announced types. The returned arrays map every new cell to the original cell that contains it.',
A,'all meshes and policies','Tests use fixed meshes; conversions are tables per cell type.',
[M+'MEDCouplingUMesh.cxx',M+'MEDCouplingUMesh_internal.cxx',I+'SplitterTetra.txx',I+'InterpKernelCellSimplify.cxx',M+'MEDCoupling1GTUMesh.cxx'],[('convertToPolyTypes/unPolyze/simplexize/tetrahedrize',M+'MEDCouplingUMesh.cxx')])

P('C12','Orientation checks find exactly the inverted cells; fixes flip only those',
'The orientation checks report exactly the 2D cells (with respect to a direction) and 3D cells (standard types, polyhedra, extruded polyhedra) whose orientation was inverted, and the corrections flip those cells only, leaving every cell correctly oriented, its geometry unchanged, and a second correction a no-op. Reversing a cell twice restores it, and propagation of orientation from reference cells gives a coherently oriented surface.',
A,'all meshes, subsets of inverted cells and directions','Tests invert one or two known cells.',
[M+'MEDCouplingUMesh.cxx',I+'VolSurfUser.cxx',I+'OrientationInverter.cxx'],[('orientCorrectly*/are*NotCorrectlyOriented',M+'MEDCouplingUMesh.cxx')])

P('C13','Point location and point-to-mesh distance agree with exhaustive geometry',
'For points not within tolerance of a cell boundary, the cells reported to contain a point are exactly those containing it by exhaustive geometric test, for every mesh kind (unstructured of any dimension, polygons, polyhedra, quadratic 2D cells, structured), for single and batched queries alike. Distances from points to a line or surface mesh equal the minimum over all cells and the reported cell realises it; bounding-box cell queries are complete.',
A,'all meshes and query points away from ties, tolerances','Fixed meshes and few points in tests; a wrong branch for one cell type or position is not reached.',
[M+'MEDCouplingUMesh.cxx',I+'PointLocatorAlgos.txx',M+'MEDCouplingStructuredMesh.cxx',M+'MEDCouplingIMesh.cxx',M+'MEDCouplingCMesh.cxx',I+'BBTree.txx'],[('getCellsContainingPoints',M+'MEDCouplingUMesh.cxx'),('PointLocatorAlgos',I+'PointLocatorAlgos.txx')])

P('C14','2D intersection and conformization partition the plane exactly',
'Intersecting two planar meshes (straight or curved edges), or a planar mesh with lines, yields a conformal mesh whose cells, mapped by the returned arrays to the originating cell of each input, exactly tile each original cell: areas match the pairwise overlap areas, nothing is lost or covered twice. Conformization, union and collinear-edge merging keep covered area and cell identity while making the mesh conformal or simpler.',
A,'all pairs of planar meshes including aligned, shared, touching and curved edges','The number of relative positions of edges is unbounded; tests hold a few dozen.',
[M+'MEDCouplingUMesh_intersection.cxx',I+'Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx',I+'Geometric2D/InterpKernelGeo2DEdge.cxx',I+'Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx',I+'Geometric2D/InterpKernelGeo2DComposedEdge.cxx',I+'Geometric2D/InterpKernelGeo2DEdgeLin.cxx'],[('Intersect2DMeshes',M+'MEDCouplingUMesh_intersection.cxx')])

P('C15','3D slices, clips and conformization are geometrically exact',
'Cutting a 3D mesh by a plane, or a surface mesh by a plane, gives cells that lie on the plane, whose areas/lengths equal the exact section of the originating cell given by the returned ids; cells reported as crossing the plane are exactly those it cuts. Clipping a cell gives the two parts exactly, one on each side, and 3D conformization, union of cells and polyhedron simplification preserve volume.',
A,'all 3D meshes and planes in general or aligned position','Fixed planes and regular meshes in tests.',
[M+'MEDCouplingUMesh.cxx',M+'MEDCouplingUMesh_intersection.cxx',I+'TranslationRotationMatrix.hxx'],[('buildSlice3D/getCellIdsCrossingPlane/clipSingle3DCellByPlane/conformize3D',M+'MEDCouplingUMesh.cxx')])

P('C16','Structured meshes are indistinguishable from their unstructured expansion',
'Cartesian, image and curvilinear meshes of dimension 1 to 3 give the same cells, nodes, measures, barycentres, bounding boxes, connectivity, sub-parts, sub-level meshes, located cells and field integrals as the unstructured mesh they expand to, and conversions between them keep geometry. Id/position conversions are mutual inverses, and box algebra on structured ranges (extraction, assignment, intersection, translation, reference change, ghost layers, detection of structured parts, refinement, coarse/fine transfer) matches the explicit id sets.',
A,'all structure sizes (including degenerate directions), coordinates and ranges','Small fixed grids in tests; index arithmetic errors depend on unequal sizes and dimension.',
[M+'MEDCouplingStructuredMesh.cxx',M+'MEDCouplingCMesh.cxx',M+'MEDCouplingIMesh.cxx',M+'MEDCouplingCurveLinearMesh.cxx'],[('structured index algebra',M+'MEDCouplingStructuredMesh.cxx')])

P('C17','Extruded meshes and their three-dimensional expansion correspond exactly',
'Extruding a planar mesh along a line gives, per layer and per planar cell, a 3D cell whose measure is the planar measure times the layer height and whose numbering follows layer-major order. A mapped extruded mesh built from a 3D mesh with any cell and node order recovers the 2D base, the 1D line and the exact permutation to the 3D cells, and fields, measures and located cells agree with the 3D mesh.',
A,'all planar meshes, extrusion lines and cell/node permutations','Two fixed meshes in tests.',
[M+'MEDCouplingMappedExtrudedMesh.cxx',M+'MEDCouplingUMesh.cxx'],[('MEDCouplingMappedExtrudedMesh',M+'MEDCouplingMappedExtrudedMesh.cxx')])

P('C18','Single-type meshes are equivalent to the general unstructured mesh',
'Meshes of a single static or dynamic cell type give the same connectivity, measures, barycentres, renumberings, extractions, merges, reverse connectivity, simplices and consistency verdicts as the general unstructured mesh with the same cells, and conversions in both directions are lossless. Packing, aggregation, polyhedron/hexahedron explosion, dual mesh and structurization keep total measure and cell identity.',
H,'all single-type meshes of every geometric type and operation','One or two types covered by tests.',
[M+'MEDCoupling1GTUMesh.cxx'],[('MEDCoupling1SGTUMesh/MEDCoupling1DGTUMesh',M+'MEDCoupling1GTUMesh.cxx')])

P('C19','Adaptive Cartesian meshes keep patches, levels and fields consistent',
'For any tree of patches, patch positions, cell counts with and without overlap, neighbourhood and ancestry queries equal those computed from the boxes; patches created from a criterion cover exactly all flagged cells without overlapping each other and within the requested efficiency and size limits. Coarse-to-fine and fine-to-coarse transfer, with and without ghosts, copies or averages exactly the cells the geometry designates, so a constant field stays constant and extensive totals are conserved.',
H,'all patch trees, refinement factors, ghost widths, flag patterns and synchronisation orders','A few fixed trees in tests.',
[M+'MEDCouplingCartesianAMRMesh.cxx',M+'MEDCouplingAMRAttribute.cxx',M+'MEDCouplingIMesh.cxx'],[('MEDCouplingCartesianAMRMesh',M+'MEDCouplingCartesianAMRMesh.cxx')])

P('C20','Field arithmetic and time discretization follow their definition',
'For fields of every spatial and time discretization, arithmetic, reductions, component-wise and tensor operations equal the same operation on their arrays, are allowed exactly for compatible supports, and carry support, discretization, time and metadata to the result. Values at a time follow the time discretization (single time, constant or linear on an interval, with the time tolerance), and copies of a field in another time representation hold the same values.',
A,'all fields, operand pairs, times and tolerances','Fixed fields and times in tests.',
[M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingTimeDiscretization.cxx',M+'MEDCouplingFieldT.txx',M+'MEDCouplingTimeDiscretization.txx'],[('MEDCouplingFieldDouble operators',M+'MEDCouplingFieldDouble.cxx'),('MEDCouplingTimeDiscretization',M+'MEDCouplingTimeDiscretization.cxx')])

P('C21','Field integrals, norms, averages and point evaluation are exact',
'For fields on cells, nodes, Gauss points and element nodes, the integral, L1/L2/max norms, averages and measure field equal the quadrature defined by the discretization, so that the integral of a constant is the constant times the total measure and results are invariant under cell/node renumbering. Evaluating a field at points returns the value of the containing cell, or for nodal fields the interpolation that is exact on affine functions and exact at nodes, for every mesh kind; node/cell averaging conversions keep constants.',
A,'all fields, discretizations, meshes and evaluation points','Fixed meshes and points in tests.',
[M+'MEDCouplingFieldDiscretization.cxx',M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingFieldDiscretizationOnNodesFE.cxx',M+'MEDCouplingVoronoi.cxx'],[('MEDCouplingFieldDiscretization',M+'MEDCouplingFieldDiscretization.cxx')])

P('C22','Restructuring a field keeps every value attached to its entity',
'Restricting a field to cells or nodes, merging or melding fields, renumbering its cells or nodes, changing its underlying mesh for an equivalent one, simplifying or merging nodes of its mesh, converting its value type and selecting by value keep every value attached to the same geometric cell, node or Gauss point. Operations that would need to reconcile incompatible values are refused beyond tolerance.',
A,'all fields of every spatial discretization, id lists and permutations','Fixed fields in tests; multi-tuple-per-cell discretizations are hardly permuted.',
[M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingFieldT.txx',M+'MEDCouplingFieldDiscretization.cxx',M+'MEDCouplingFieldTemplate.cxx'],[('buildSubPart/renumberCells/MergeFields/changeUnderlyingMesh',M+'MEDCouplingFieldDouble.cxx')])

P('C23','Reference elements, shape functions and Gauss localizations are consistent',
'For every supported reference element the shape functions sum to one everywhere, equal one at their own node and zero at the others, reproduce the element coordinates, and their derivatives are the true gradients. Gauss point localization maps reference points to the physical points given by those shape functions for every cell, default reference coordinates and default Gauss rules integrate low-degree polynomials exactly, and localization assignment per type or per cell is faithfully stored and retrieved.',
A,'all element types, points and node positions','Tests sample some elements at fixed points.',
[I+'GaussPoints/InterpKernelGaussCoords.cxx',M+'MEDCouplingGaussLocalization.cxx',M+'MEDCouplingFieldDiscretization.cxx'],[('GaussInfo shape functions',I+'GaussPoints/InterpKernelGaussCoords.cxx')])

P('C24','Interpolation matrices contain exact intersection measures',
'For cell-to-cell interpolation in 1D, 2D, 3D, curves in 2D and surfaces in 3D, every matrix entry equals the measure of the intersection of the target cell with the source cell, whatever the intersection algorithm, splitting policy, cell types or cell order, and pairs that do not intersect have no entry. Row and column sums therefore equal cell measures where one mesh covers the other, and exchanging source and target transposes the matrix.',
A,'all pairs of meshes, intersection algorithms and options','Tests compare a few fixed pairs of meshes.',
[M+'MEDCouplingRemapper.cxx',I+'Interpolation2D.txx',I+'Interpolation3D.txx',I+'InterpolationPlanar.txx',I+'ConvexIntersector.txx',I+'TriangulationIntersector.txx',I+'Geometric2DIntersector.txx',I+'PolyhedronIntersectorP0P0.txx',I+'TransformedTriangle.cxx',I+'SplitterTetra.txx',I+'Interpolation1D.txx',I+'Interpolation3DSurf.hxx'],[('Interpolation*/Intersector*',I)])

P('C25','Field transfer honours the nature of the field',
'Transferring a field with a prepared interpolator applies exactly the formula of its nature: extensive conservation keeps the total, extensive maximum distributes by source measure, intensive maximum keeps constants and bounds, intensive conservation keeps the integral when the target is covered. Targets touched by no source take the default value (or keep their value in partial transfer), reverse transfer is the transposed formula, and matrices can be exported, edited, re-imported and reused for any number of fields without changing results.',
H,'all mesh pairs, natures, field values, numbers of components and sequences of calls on one interpolator','Fixed meshes and one transfer per case in tests.',
[M+'MEDCouplingRemapper.cxx',M+'MEDCouplingNatureOfField.cxx'],[('MEDCouplingRemapper',M+'MEDCouplingRemapper.cxx')])

P('C26','Node-based interpolation reproduces affine fields',
'Interpolation from or to node fields (all combinations of cell and node supports, barycentric, mapped-barycentric and point-locator variants, finite-element nodes, kriging) gives weights that are partition-of-unity for covered targets and reproduce affine fields at the locations the method defines. Point location variants pick the cell that contains the target point, and results do not depend on numbering.',
A,'all mesh pairs of supported types and affine fields','Fixed meshes in tests.',
[M+'MEDCouplingRemapper.cxx',I+'PlanarIntersectorP1P0.txx',I+'PlanarIntersectorP0P1.txx',I+'PolyhedronIntersectorP1P0.txx',I+'PolyhedronIntersectorP0P1.txx',I+'PointLocator2DIntersector.txx',I+'PointLocator3DIntersectorP1P1.txx',I+'InterpolationUtils.hxx',I+'MappedBarycentric2DIntersectorP1P1.txx',M+'MEDCouplingFieldDiscretization.cxx'],[('P1 intersectors',I)])

P('C27','Equality is exact and copies and serialization round-trip losslessly',
'Deep copy, clone, pickling and tiny serialization of any array, mesh, field, field template, multi-field, skyline array, localization or AMR structure give an object equal to the original in values, connectivity, names, units, times, and discretization. Equality holds exactly when nothing differs beyond the tolerance: changing any single value, id, name, unit, time or type makes objects unequal (and the explanation says so), and comparison ignoring strings ignores only strings.',
A,'all objects of all classes and all single modifications','Tests round-trip one sample per class and rarely check that a difference is detected.',
[M+'MEDCouplingMesh.cxx',M+'MEDCouplingUMesh.cxx',M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingMemArray.txx',M+'MEDCouplingTimeDiscretization.cxx',M+'MEDCouplingFieldDiscretization.cxx','src/MEDCoupling_Swig/MEDCouplingCommon.i'],[('isEqualIfNotWhy/serialize/unserialization',M)])

P('C28','Writing a mesh to a MED file and reading it back loses nothing',
'A mesh of any kind (unstructured with several levels and any cell types, Cartesian, curvilinear) written to a MED file and read back through the basic or advanced interface is equal to the original, including cell order by type, groups, families, numbering, names, units and (advanced interface) time stamp. Group and family edits behave as set operations on entity ids, and appending or overwriting other objects in the file leaves this mesh intact.',
H,'all meshes, group/family edits and write/append sequences','Fixed meshes in tests, and these tests cannot even be built in the baseline environment.',
[L+'MEDFileMesh.cxx',L+'MEDFileMeshLL.cxx',L+'MEDFileMeshElt.cxx',L+'MEDLoader.cxx',L+'MEDFileBasis.cxx'],[('MEDFileUMesh::write/LoadFromFile',L+'MEDFileMesh.cxx')])

P('C29','Writing fields to a MED file and reading them back loses nothing',
'Fields on cells, nodes, Gauss points and element nodes, on whole meshes or on profiles, of double or integer values, with several components and time steps, read back equal to what was written: values attached to the same entities, times, iteration numbers, component names, units, profiles and localizations. Loading part of a file, lazily loading, or appending other fields does not alter them, and parameters and metadata round-trip.',
H,'all fields, profiles, time steps and write/append sequences','Fixed fields in tests, not buildable in the baseline environment.',
[L+'MEDFileField.cxx',L+'MEDFileField1TS.cxx',L+'MEDFileFieldMultiTS.cxx',L+'MEDFileFieldInternal.cxx',L+'MEDFileFieldGlobs.cxx',L+'MEDFileParameter.cxx',L+'MEDLoader.cxx'],[('MEDFileField1TS::write/New',L+'MEDFileField1TS.cxx')])

P('C30','Export and import in other formats round-trip and never misread input',
'Meshes, groups and fields written in SAUV text or mesh-format and read back, and meshes and fields exported to VTK, describe the same cells, coordinates and values as the original. Truncated or corrupted input files are either read or rejected with an exception, never crash the process.',
['inputs','fault_sequences'],'all meshes and fields the format can hold, and all corruptions of a valid file','Few sample files in tests.',
[L+'SauvWriter.cxx',L+'SauvReader.cxx',L+'SauvMedConvertor.cxx',L+'MeshFormatReader.cxx',L+'MeshFormatWriter.cxx',M+'MEDCouplingMesh.cxx',M+'MEDCouplingUMesh.cxx'],[('writers and readers',L)])

P('C31','Graph renumbering returns genuine permutations with consistent tables',
'For every mesh graph, each available renumbering method returns two arrays that are permutations of all cells and inverse of each other, deterministic for the same input, and renumbering a mesh and field with them changes only the order. Partitioning a mesh assigns each cell to exactly one part and the parts together contain each original cell and node once with the same geometry, groups and field values.',
A,'all graphs and meshes, isolated cells and disconnected components included','One mesh in tests.',
['src/RENUMBER/RENUMBER_BOOSTRenumbering.cxx','src/RENUMBER/RENUMBER_METISRenumbering.cxx','src/RENUMBER/RenumberingFactory.cxx','src/MEDPartitioner/MEDPARTITIONER_MeshCollection.cxx'],[('Renumbering','src/RENUMBER')])

P('C32','Shape recognition recovers the surface a mesh was sampled from',
'For regular triangulated samples of a plane, cylinder, cone, sphere or torus in any position, orientation and scale, the recognised areas are of the right primitive, their reported parameters (normal, axis, radius, centre, angle) match the generating surface within the sampling accuracy, and the areas and fields returned are defined on all nodes. For any triangulation the recognition gives an answer whose areas and fields agree with each other, node normals are those of the surrounding triangles, and curvatures follow moves, scalings and changes of orientation. The underlying linear-algebra helpers satisfy their defining equations.',
A,'all placements, scales and resolutions of the primitives','Tests use fixed MED files (not buildable here) and fixed matrices.',
['src/ShapeRecogn/ShapeRecognMeshBuilder.cxx','src/ShapeRecogn/Areas.cxx','src/ShapeRecogn/AreasBuilder.cxx','src/ShapeRecogn/NodesBuilder.cxx','src/ShapeRecogn/PrimitiveType.hxx','src/ShapeRecogn/MathOps.cxx'],[('ShapeRecognMeshBuilder','src/ShapeRecogn')])

P('C33','Iterative statistics equal batch statistics for any stream',
'After any number of field increments, the iterative mean, variance, standard deviation, covariance, and Sobol estimators equal the value of the batch formula on the whole set of fields, per tuple and component, on the same mesh. Interleaving independent accumulators and the scale or offset of the values do not change this beyond rounding.',
H,'all sequences of fields and sizes','One or two fixed sequences in tests.',
['src/Stat/MEDCouplingIterativeStatistics.py'],[('iterative statistics wrappers','src/Stat')])

P('C34','Parallel transfer over any distribution equals the sequential transfer',
'For source and target meshes distributed in any way over processes, the parallel exchange components (two-group interpolation, overlapping distribution, structured and explicit coincidence, parallel array and mesh redistribution) deliver on each process the same values as the sequential interpolation of the whole meshes. Repeated sends in both directions and empty local parts do not change this.',
['inputs','schedules','configurations'],'all meshes, distributions over 2 to 5 processes and sequences of exchanges','MPI tests are fixed and not built in the baseline environment.',
['src/ParaMEDMEM/InterpKernelDEC.cxx','src/ParaMEDMEM/OverlapDEC.cxx','src/ParaMEDMEM/InterpolationMatrix.cxx','src/ParaMEDMEM/ElementLocator.cxx','src/ParaMEDMEM/OverlapElementLocator.cxx','src/ParaMEDMEM/OverlapMapping.cxx','src/ParaMEDMEM/MxN_Mapping.cxx','src/ParaMEDMEM/ParaUMesh.cxx','src/ParaMEDMEM/ParaDataArray.txx'],[('DEC','src/ParaMEDMEM')])

P('C35','Cell quality indicators equal their definitions and rank shapes invariantly',
'For every supported cell type the edge ratio, aspect ratio, warping, skewness and diameter fields equal their published geometric definition, take their documented optimum on the regular element, and are invariant under translation, rotation, uniform scaling and renumbering of nodes and cells. Unsupported cell types are refused with an exception.',
A,'all cells of every supported type in the plane, on surfaces and in space','Tests evaluate a handful of fixed cells.',
[I+'InterpKernelMeshQuality.cxx',I+'DiameterCalculator.cxx',M+'MEDCouplingUMesh.cxx'],[('getEdgeRatioField/getAspectRatioField/getWarpField/getSkewField',M+'MEDCouplingUMesh.cxx'),('quality formulae',I+'InterpKernelMeshQuality.cxx')])

P('C36','Invalid arguments are rejected cleanly without memory errors',
'A call with out-of-range or negative ids, wrong array sizes or component counts, inconsistent connectivity, unallocated arrays, or incompatible operands, to the checked entry points of arrays, meshes, fields and interpolators, raises an exception and leaves its operands usable and unchanged (an in-place edit driven by a list of ids may have been applied up to the offending id). Neither valid nor rejected calls read or write outside their arrays or use freed memory.',
['inputs','fault_sequences'],'all entry points documented to check their arguments and all invalid argument combinations','Tests exercise some throws and never under memory checking.',
[M+'MEDCouplingMemArray.txx',M+'MEDCouplingMemArray.cxx',M+'MEDCouplingUMesh.cxx',M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingPointSet.cxx'],[('argument checks',M)])

P('C37','Read-only operations change nothing and copies share nothing',
'Operations documented as queries or as returning new objects leave all their operands bit-for-bit unchanged, and modifying a deep copy or a result never alters the object it came from, while objects documented to share (shallow clone, shared coordinates) do share. The modification time of an object increases whenever it or something it depends on changes and not on queries, and every object is released exactly when its last owner goes.',
H,'all operation sequences over shared arrays, meshes and fields','Aliasing is checked by tests in a few isolated situations.',
[M+'MEDCouplingTimeLabel.cxx',M+'MEDCouplingRefCountObject.cxx',M+'MEDCouplingUMesh.cxx',M+'MEDCouplingFieldDouble.cxx',M+'MEDCouplingMemArray.txx'],[('TimeLabel/RefCountObject',M)])
with open('/verif/properties.jsonl','w') as f:
    for o in OUT: f.write(json.dumps(o)+'\n')
print(len(OUT))
import os,re
for o in OUT:
    for f in o['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('MISSING',o['id'],f)
    for m in o['anchors']['mechanism']:
        if not os.path.exists('/repo/'+m['where']): print('MISSING',o['id'],m['where'])
    n=len(re.findall(r'[.](?: |$)',o['statement']))
    if n>3: print('SENTENCES',o['id'],n)
