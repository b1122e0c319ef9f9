import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
IN=["inputs","configurations","schedules"]
TW="The tests use a handful of square, 0-based matrices with 1 to 4 threads; "
p("C01","Transposition is exact",
 "Transposing a sparse matrix yields a matrix of swapped dimensions and the same index base whose stored entries are exactly the stored entries of the source with row and column exchanged (values included when the source has values), and inside every output row the entries appear in the order of the source rows. When the source carries diagonal positions, the result carries the positions of its own diagonal entries. The source is left unchanged and no access leaves the arrays involved.",
 IN,"every well-formed matrix (any shape with at least one column, base 0 or 1, empty rows, with or without values), every number of threads, every schedule",
 TW+"they never transpose 1-based, non-square or pattern-only matrices and see one schedule at a time.",
 ["CSR.cpp","Utils.cpp"],[("parallel counting sort with per-thread histograms and a transposed prefix sum","CSR.cpp CSR::transpose"),("load balanced row ranges","Utils.cpp getLoadBalancedPartition")],["the returned matrix"])
p("C02","Row and column permutation rewrites the matrix exactly",
 "Permuting a matrix with a column permutation and an inverse row permutation yields a new matrix in which output row r holds the entries of the source row that the inverse permutation names, each with its column renumbered by the column permutation and its value unchanged; with sorting requested the columns of each row are ascending. Diagonal positions, when the source has them, point at the same entries in the result. The index base is kept and the source is unchanged.",
 IN,"every well-formed matrix, every pair of permutations, base 0 and 1, with and without values and diagonal data, sorted or not, every number of threads",
 TW+"permutations come from one reordering and results are only compared through a solve.",
 ["Permute.cpp","Utils.cpp","PrefixSum.cpp"],[("row pointer permutation by parallel prefix sum","Permute.cpp CSR::permuteRowptr"),("row by row copy with renumbering","Permute.cpp permuteMain_")],["the returned matrix"])
p("C03","Row-only permutation keeps every row intact",
 "Permuting only the rows of a matrix yields a new matrix in which output row r is an exact copy (columns, values, order and diagonal position) of the source row that the inverse permutation names. Row pointers of the result start at the index base, are monotone and give every row the length of its source row. The source is unchanged.",
 IN,"every well-formed matrix, every permutation, base 0 and 1, with and without values and diagonal data, every number of threads",
 "No test calls row-only permutation on a 1-based matrix or with more threads than rows.",
 ["Permute.cpp","PrefixSum.cpp","Utils.cpp"],[("row pointer permutation","Permute.cpp CSR::permuteRowptr"),("row copy","Permute.cpp permuteRowsMain_")],["the returned matrix"])
p("C04","In-place column renumbering touches only column indices",
 "Renumbering columns in place replaces every stored column index by its image under the permutation and keeps every row a rearrangement of its own (column, value) pairs, ordered by the new column index where the operation sorts. Row pointers do not change and recorded diagonal positions keep naming diagonal entries.",
 IN,"every well-formed matrix, every column permutation, base 0 and 1, with and without values, every number of threads",
 "No test exercises in-place renumbering at all.",
 ["Permute.cpp"],[("per-row renumber and insertion sort","Permute.cpp permuteColsInPlace_")],["the matrix after the call"])
p("C05","Coordinate to compressed-row conversion loses nothing",
 "Converting a coordinate list into compressed rows yields monotone row pointers that start at the requested base and end at base plus the number of entries, and the stored (row, column, value) triples are exactly the input triples, with the columns of each row in ascending order. Recorded diagonal positions and inverse diagonals agree with the stored diagonal entries.",
 ["inputs","configurations"],"every coordinate list with in-range indices in any order, with duplicates and empty rows, every supported source and target base",
 "Tests convert a few files whose entries arrive sorted by column.",
 ["COO.cpp"],[("counting pass, scatter pass and per-row sort","COO.cpp coo2csr, dcoo2csr, qsort")],["the resulting matrix"])
p("C06","Sparse matrix-vector product equals its formula",
 "Multiplying a matrix with a vector stores in every output element alpha times the sum over the row of value times source element (value 1 for a pattern-only matrix), plus beta times the addend element, plus gamma, and changes nothing else. The result is the same for every number of threads, when the output vector is the addend vector or the source vector itself, and for both index bases.",
 IN,"every well-formed matrix (any shape, base 0 or 1, with or without values), every alpha, beta, gamma, every vector, aliasing of output with source or addend, every number of threads",
 TW+"alpha, beta and gamma are 1, 0 and 0 almost everywhere and aliasing is never tried on rectangular matrices.",
 ["SpMV.cpp","Utils.cpp"],[("row loop specialised for constant coefficients","SpMV.cpp SpMV_"),("aliasing copy","SpMV.cpp CSR::multiplyWithVector")],["the output vector"])
p("C07","Sparse times dense matrix product equals its formula",
 "Multiplying a matrix with a dense block stores in every output element (row i, column j) alpha times the sum of value times source element, plus beta times the addend element, plus gamma, for any combination of row and column strides of the three dense blocks, and writes no other location.",
 IN,"every well-formed matrix with values, base 0 and 1, every positive width, every stride combination under which the output elements are distinct, every coefficient triple, every number of threads",
 "No test calls this operation.",
 ["SpMV.cpp"],[("strided row loop","SpMV.cpp SpMDM_, CSR::multiplyWithDenseMatrix")],["the output block"])
p("C08","Work partitions cover every row exactly once",
 "The even and the load-balanced work partition give each thread of a team a range such that the ranges are in thread order, adjacent, start at zero and end at the number of items, so every item belongs to exactly one thread.  The even partition's ranges differ in size by at most one per thread share (no range exceeds the rounded-up average).",
 IN,"every item count including zero, every monotone weight array including constant ones, every number of threads including more threads than items",
 "Tests run with 1 to 4 threads on a few row counts, far from the corner cases (more threads than items, all weight in one row).",
 ["Utils.cpp"],[("rounded-up division and clamping","Utils.cpp getSimpleThreadPartition"),("binary search on the weight prefix sums","Utils.cpp getLoadBalancedPartition")],["the begin and end of each thread"])
p("C09","Team prefix sums are exact",
 "After the team-wide prefix sum every thread holds the sum of the inputs of all lower-numbered threads and every thread sees the same grand total; the multi-column form does this independently for each column and leaves the same numbers in the shared workspace.",
 IN,"every per-thread input, every number of threads, every number of columns, every schedule of the team",
 "Tests reach this only through other operations with 1 to 4 threads.",
 ["PrefixSum.cpp"],[("workspace exchange with barriers","PrefixSum.cpp prefixSum, prefixSumMultiple")],["per-thread result and total"])
p("C10","Permutation and vector utilities are exact",
 "Inverting a permutation gives the array that maps every image back; the permutation checks accept exactly the permutations (respectively exactly the inverse pairs); reordering a vector out of place or in place moves element i to the position given by the permutation (or fetches it from the position given by the inverse); parallel copy and fill affect exactly the requested elements.",
 IN,"every length including zero, every permutation, every non-permutation given to the checks, every number of threads, every byte count",
 "Tests only feed valid permutations to the checks and use vectors of one length.",
 ["Utils.cpp","Utils.hpp"],[("inversion","Utils.cpp getInversePerm"),("checks","Utils.cpp isPerm, isInversePerm"),("reordering","Utils.cpp reorderVector*"),("bulk copy","Utils.cpp parMemset, parMemcpy; Utils.hpp copyVector")],["returned flags and vectors"])
p("C11","Index base conversion shifts indices only",
 "Converting a matrix to 0-based or 1-based indexing changes every row pointer, column index and recorded position by exactly the base difference, leaves values and dimensions alone, does nothing when the matrix already has that base, and converting there and back restores the matrix. Copying a matrix gives an independent equal matrix.",
 IN,"every well-formed matrix with and without diagonal or external positions, both directions, every number of threads",
 "All test matrices are 0-based; conversion is never exercised.",
 ["CSR.cpp"],[("shift loops","CSR.cpp make0BasedIndexing, make1BasedIndexing"),("copy constructor","CSR.cpp CSR::CSR(const CSR&)")],["the matrix after the call"])
p("C12","Matrix queries return the true answer",
 "The structural and numerical symmetry test, the zero-diagonal test, bandwidth, average row width, maximum degree and equality return the value of their mathematical definition for the given matrix, without modifying it.",
 IN,"every well-formed matrix, base 0 and 1, empty rows, every number of threads and schedule",
 TW+"the negative answers and the 1-based case are not checked.",
 ["CSR.cpp"],[("pair search","CSR.cpp CSR::isSymmetric"),("row scans","CSR.cpp hasZeroDiag, getBandwidth, getAverageWidth, getMaxDegree, equals")],["the returned value"])
p("C13","Binary matrix files round-trip",
 "Loading a file that was stored in the library's binary format gives back a matrix with the same dimensions, row pointers, columns, values and order, in the requested index base, with diagonal positions, diagonals and inverse diagonals of the stored diagonal entries; storing leaves the matrix as it was.",
 ["inputs","configurations"],"every well-formed matrix with values, any shape, base 0 and 1 at both ends",
 "Tests only convert files to the format; nothing reads one back and compares.",
 ["CSR.cpp"],[("header, row lengths, columns, values","CSR.cpp CSR::storeBin, CSR::loadBin")],["the loaded matrix","the stored matrix after the call"])
p("C14","The generated 27-point stencil matrix is the stencil matrix",
 "Generating the 27-point stencil for an nx by ny by nz grid gives one row per grid point in lexicographic order, whose entries are exactly its grid neighbours (including itself) in ascending order, 26 on the diagonal and -1 elsewhere, with row pointers, diagonal positions, diagonals and inverse diagonals to match, in the requested base.",
 IN,"every grid size including dimensions of one, base 0 and 1, every number of threads",
 "Tests use cubes of four sizes, 0-based.",
 ["Laplacian.cpp"],[("closed form row offsets per thread and stencil loops","Laplacian.cpp generate3D27PtLaplacian")],["the generated matrix"])
p("C15","Triangular splitting partitions the matrix",
 "Splitting a square matrix puts every stored off-diagonal entry into exactly one of a strictly lower and a strictly upper part, unchanged and in row order, and leaves the diagonal in neither; both parts are well-formed, and the inverse diagonal is shared with the source.",
 IN,"every well-formed square matrix (entries in any order inside a row), base 0 and 1, every number of threads",
 "Tests split a few 0-based matrices and only look at the outcome through a solve.",
 ["LevelSchedule.cpp","Permute.cpp","CSR.cpp"],[("count, prefix sum, scatter","splitLU")],["the two parts"])
p("C16","Symmetrised pattern is the union of the pattern and its transpose",
 "Building the symmetric pattern of a matrix yields, for every row, exactly the set of columns c such that (row, c) or (c, row) is stored, with correct row pointers and diagonal positions; it reports whether anything had to be added.",
 IN,"every well-formed square matrix, every number of threads",
 "Tests use it inside the scheduler on a few matrices.",
 ["CSR.cpp","LevelSchedule.cpp"],[("pair search and two pass insert","getSymmetricNnzPattern")],["the returned arrays"])
p("C17","Memory pool allocations never overlap or overrun",
 "Every block handed out by the memory pool lies inside the pool, is aligned as requested and overlaps no other live block, whether taken from the front or the back; a request that fits is served. Setting a mark and rewinding to it frees exactly what was allocated since. The ownership query answers true exactly for addresses in the used part of the pool (from head to tail, cyclically), and false for null and for an empty pool. In builds with assertions enabled, a request that does not fit ends in a failed assertion instead of an overrun or overlap.",
 ["inputs","histories"],"every pool size, every sequence of front, back and mark operations, every size and alignment",
 "No test configures a pool small enough to reach its limits.",
 ["MemoryPool.cpp","MemoryPool.hpp"],[("head and tail bump pointers","MemoryPool.cpp allocate, allocateFront, setHead, setTail, contains")],["returned addresses and head/tail"])
p("C18","Diagonal positions and inverse diagonals name the diagonal",
 "In a matrix whose rows hold no entry above the diagonal before their diagonal entry (sorted rows in particular), after diagonal positions are built the recorded position of every row that stores a diagonal entry names that entry; after inverse diagonals are built, each equals the reciprocal of the row's diagonal value. Nothing else changes.",
 IN,"every well-formed matrix, base 0 and 1, lower entries before and other entries after the diagonal in any order, every number of threads",
 "Tests exercise this only on 0-based sorted rows.",
 ["CSR.cpp","Permute.cpp","LevelSchedule.cpp"],[("row scan","CSR::constructDiagPtr, CSR::computeInverseDiag")],["recorded positions and reciprocals"])
p("C19","Level schedules put every row in exactly one task in dependence order",
 "A level schedule built for a matrix with symmetric pattern assigns every row to exactly one task of exactly one thread, and a row's level is greater than the level of every lower-numbered neighbour, so that rows of one level are independent; the permutation it offers is a permutation consistent with the task order.",
 IN,"every matrix with symmetric pattern, every number of threads, every schedule option",
 "Tests run a few matrices and thread counts and only observe the solve.",
 ["LevelSchedule.cpp","LevelSchedule.hpp"],[("level construction and task partition","LevelSchedule.cpp findLevels_, constructTaskGraph")],["level boundaries, task boundaries, permutation"])
p("C20","Scheduled triangular solves equal sequential substitution",
 "Forward and backward triangular solves that run over a valid schedule (in level order with barriers, or with point-to-point waits) give in every element exactly the value sequential substitution gives, for every number of threads and every interleaving, with original or permuted matrices.",
 IN,"every triangular matrix, right-hand side and valid schedule, every interleaving",
 "Tests run one interleaving per execution on a few matrices and compare with tolerance.",
 ["SymGS.cpp","LevelSchedule.cpp","test/trsv_test.cpp"],[("wait for parents, solve rows, signal","SymGS.cpp")],["the solution vector"])
p("C21","Reordering produces permutations",
 "The breadth-first and the Cuthill-McKee reorderings of a matrix with symmetric pattern return a permutation of all rows together with its inverse, also for matrices with several components or isolated rows.",
 IN,"every matrix with symmetric pattern, every number of threads, every schedule",
 "Tests check a few connected matrices.",
 ["reordering/RCM.cpp","reordering/ConnectedComponents.cpp"],[("level-synchronous traversal","reordering/RCM.cpp")],["the two index arrays"])
p("C22","Connected components are found exactly",
 "The component finder returns the number of connected components, one root per component, and component sizes that add up to the number of rows, with members of a component exactly the rows reachable from its root.",
 IN,"every matrix with symmetric pattern, every number of threads, every schedule",
 "Tests do not check the component arrays at all.",
 ["reordering/ConnectedComponents.cpp"],[("parallel union-find","reordering/ConnectedComponents.cpp")],["the returned arrays"])
p("C23","The team barrier separates phases",
 "No thread leaves the library's barrier before every thread of the team has entered it, and every thread eventually leaves, over any number of reuses and any team size.",
 ["schedules","configurations","histories"],"every team shape, every number of rounds, every interleaving",
 "Tests sample a few interleavings with up to 4 threads.",
 ["synk/barrier.cpp","synk/barrier.hpp"],[("counter and tree barrier","synk/barrier.cpp")],["arrival and departure order"])
p("C24","General Matrix Market coordinate files load exactly",
 "Loading a general (not symmetric) Matrix Market coordinate file, directly or transposed, gives exactly the entries the file states, in file order: row, column and value (1 for pattern files, the real part for complex files), coordinates counted from one (all shifted by one when the file counts from zero), rows and columns exchanged and dimensions swapped when transposed. Dimensions are rounded up to the padding and the padded rows get unit diagonal entries behind the file's entries. Files with negative sizes, coordinates out of range, or a number of entry lines other than stated are reported as failures, without memory errors and with the file closed.",
 ["inputs","configurations"],"every general coordinate file (real, integer, pattern, complex), valid or malformed behind its banner, every padding, with zero- and one-based coordinates",
 "Tests read a few valid square one-based files without padding.",
 ["COO.cpp","mm_io.cpp"],[("size check, entry loop, zero-base shift, padding","COO.cpp loadMatrixMarket_, loadMatrixMarket, loadMatrixMarketTransposed"),("entry lines","mm_io.cpp mm_read_mtx_crd_entry, mm_is_valid")],["the coordinate list"])
p("C25","Bipartite traversal reaches exactly the reachable vertices",
 "The bipartite breadth-first traversal visits exactly the vertices reachable from its source and labels each with its shortest distance.",
 IN,"every rectangular matrix and source, every number of threads, every schedule",
 "Tests run a few matrices.",
 ["reordering/BFSBipartite.cpp"],[("alternating frontier expansion","reordering/BFSBipartite.cpp")],["the visit count and levels"])
p("C26","Dense vector files load exactly",
 "Loading a dense vector from a Matrix Market array file gives the stated dimensions and an array of exactly the stated numbers in file order, or reports failure (file missing, not an array, invalid banner, impossible dimensions, numbers missing or not numbers) without memory errors, with the file closed.",
 ["inputs"],"every Matrix Market array file, valid or malformed behind its banner",
 "Tests read one valid file.",
 ["Vector.cpp","mm_io.cpp"],[("size check and number loop","Vector.cpp loadVectorMatrixMarket"),("banner check","mm_io.cpp mm_is_valid")],["the returned array and dimensions"])
p("C27","Matrix storage is set up, owned and released correctly",
 "A matrix object constructed with dimensions owns fresh row pointers (rows + 1), columns and values (entries) and, where diagonal data is allocated, diagonal positions, diagonals and inverse diagonals of one element per row; every array it does not allocate is null. A matrix constructed around given arrays refers to exactly these and does not own them. (Diagonal positions, diagonals and inverse diagonals always belong to the matrix that holds them; the other arrays belong to it when it is marked as their owner.) Releasing or destroying a matrix releases every block it owns exactly once, leaves borrowed blocks and blocks of the memory pool alone, and leaves null where a released block was, so that a second release, or destruction after it, does nothing. The same holds for coordinate matrices.",
 ["inputs","configurations","histories"],"every combination of present and absent arrays, owned or borrowed, pooled or not, every size",
 "Tests construct and delete owned matrices with all arrays present and observe nothing of the release; a double release or a forgotten null shows only under particular combinations.",
 ["CSR.cpp","COO.cpp","CSR.hpp","COO.hpp"],[("allocation and release by ownership flag and pool query","CSR.cpp CSR::CSR, CSR::alloc, CSR::dealloc, CSR::~CSR; COO.cpp COO::dealloc, COO::~COO")],["the fields of the object and the set of live blocks"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
