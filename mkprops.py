import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Site numbering is a bijection between coordinates and linear indices",
"For every lattice size and every compiled-in layout, Layout::linearSiteIndex maps the global coordinates one-to-one onto 0..sitesOnNode-1 and Layout::siteCoords is its exact inverse, with vol() the product of the extents and sitesOnNode() = vol on one node. Layout::latticeCoordinate(mu) holds coordinate mu of every site, and the lexicographic helpers crtesn/local_site are mutual inverses with direction 0 fastest.",
["inputs","configurations"],"all lattice extents (odd, even, 1, non-cubic) accepted by each of the LEXICO, CB2, CB3D and CB32 layouts and several Nd",
"The tests run one lattice size in one layout; a wrong index formula shows only for particular extents and layouts.",
["lib/qdp_scalar_layout.cc","lib/qdp_layout.cc","include/qdp_layout.h"],
[("linearSiteIndex/siteCoords per layout","lib/qdp_scalar_layout.cc"),("crtesn, local_site, latticeCoordinate","lib/qdp_layout.cc")])
p("P02","A Set's subsets are exactly the sites of each colour",
"Set::make(func) yields numSubsets()==func.numSubsets() subsets whose site tables are pairwise disjoint and together list every site exactly once, site x lying in subset func(x), also after the Set is copied, assigned or re-made. siteTable, numSiteTable, hasOrderedRep, start, end, latticeColoring and color() all describe that same membership, and the predefined all, even, odd, rb, rb3 and mcb follow their documented parity and hypercube colourings.",
["inputs","configurations","histories"],"arbitrary colouring functions over all lattice sizes and layouts, with empty, single-site, contiguous and scattered subsets, and histories of make/copy/assign",
"The tests use only the default checkerboards; membership errors need odd colourings, empty colours or a particular ordering of the layout.",
["lib/qdp_subset.cc","include/qdp_subset.h","lib/qdp_scalar_specific.cc"],
[("Set::make, Set::operator=, Subset::make","lib/qdp_subset.cc and lib/qdp_scalar_specific.cc"),("initDefaultSets","lib/qdp_subset.cc")])
p("P03","Subset assignment changes the sites of the subset and no others",
"For any lattice object r and any Subset s, r[s] op= expr (op in =, +=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=), zero_rep, fills by a scalar, random and gaussian fills and copymask give every site of s the value the whole-lattice operation would give it and leave every other site bit-for-bit unchanged. An owning OSubLattice (a field stored only on a subset) holds exactly the values of its field on that subset, and assigning between it and a lattice acts on those sites alone.",
["inputs","programs","configurations"],"all field types, operators, right-hand sides, lattice sizes and arbitrary subsets (ordered, unordered, empty)",
"Tests write subsets for a couple of kernels and never compare the untouched sites; the ordered and unordered evaluation paths differ in code.",
["include/qdp_scalar_specific.h","include/qdp_qdpsubtype.h","include/qdp_outersubtype.h","include/qdp_globalfuncs_subtype.h"],
[("evaluate(OLattice,op,expr,subset), zero_rep, copymask, random, gaussian","include/qdp_scalar_specific.h"),("OSubLattice and setSubset","include/qdp_outersubtype.h")])
p("P04","Shifts and maps move exactly the addressed site's data",
"shift(a,isign,mu) holds at x the value of a at x+isign*mu with periodic wrap-around in every direction and for every lattice size, and for every map m built from a site function f, m(a) at x is the value of a at f(x). This holds for every field type, for expressions as arguments, nested or repeated inside one expression, and under subset assignment; a shift forward then backward is the identity, and maps made from MapFunc families and bidirectional ArrayMap/ArrayBiDirectionalMap objects follow their own site function in each direction and index.",
["inputs","programs","configurations"],"all field types, directions, signs, compositions, extents including 1 and 2, arbitrary site functions and every layout",
"Two examples exercise nearest-neighbour shifts and check only exit status; a wrong neighbour at a wrap-around or in one map flavour is not observed.",
["lib/qdp_map.cc","include/qdp_map.h","lib/qdp_scalar_specific.cc","include/qdp_scalar_specific.h"],
[("Map::make, ArrayMap, BiDirectionalMap, ArrayBiDirectionalMap","lib/qdp_scalar_specific.cc"),("Map::operator() and FnMap/forEach","include/qdp_scalar_specific.h"),("NearestNeighborMapFunc and initDefaultMaps","lib/qdp_map.cc")])
p("P05","Field expressions evaluate per site as tensor-product algebra",
"Every well-formed expression over complex, colour, spin and propagator-like fields (+, -, *, /, adj, transpose, conj, trace, partial traces/transposes over spin or colour, real, imag, cmplx, timesI, timesMinusI, localNorm2, localInnerProduct, outerProduct, traceMultiply, mixing fields with scalar (non-lattice) operands) has at each site the value of the textbook spin x colour x complex tensor algebra to rounding. op= assignment agrees with the expanded expression, and scalar-only (OScalar) expressions follow the same algebra.",
["inputs","programs","configurations"],"random well-typed expressions of bounded depth over random field values, precisions 32 and 64, generic and SSE builds",
"Each overload is a separate hand-written template; the tests evaluate two or three of the several hundred combinations on fixed values.",
["include/qdp_primcolormat.h","include/qdp_primspinmat.h","include/qdp_primmatrix.h","include/qdp_primvector.h","include/qdp_primscalar.h","include/qdp_reality.h","include/qdp_outer.h"],
[("PMatrix/PVector/PScalar algebra","include/qdp_primmatrix.h etc."),("RComplex arithmetic","include/qdp_reality.h"),("PETE evaluation","include/qdp_newops.h, QDPOperators.h")])
p("P06","Real, integer and boolean fields behave like C++ arithmetic at each site",
"Arithmetic, comparison, logical, bitwise and shift operators, where, the mathematical functions (sin ... atan2, pow, fabs, floor, ceil, sqrt, exp, log), isnan/isinf/isfinite, and conversions among boolean, int, float, double and mixed-precision fields and scalars have at each site the value the same C++ operation has on the numbers held there. This holds in op= form, for scalar operands on either side, for lattice and OScalar objects, and for complex division, conj, abs-type and comparison combinations offered on complex fields.",
["inputs","programs","configurations"],"all operand types and orders, random values including zeros, negatives and extremes within C++-defined behaviour",
"No test asserts anything about integer, boolean, comparison or conversion overloads.",
["include/qdp_inner.h","include/qdp_reality.h","include/qdp_word.h","include/qdp_primscalar.h","include/qdp_outer.h"],
[("Word/RScalar/PScalar operator ladders","include/qdp_reality.h, qdp_word.h, qdp_primscalar.h"),("where/comparison at lattice level","include/qdp_outer.h, QDPOperators.h")])
p("P07","Gamma(n) multiplication is the documented Dirac algebra",
"Gamma(n) for n=0..15 and the GammaDP (Dirac-Pauli) family multiply fermions, spin matrices and propagators from the left and, where defined, from the right exactly as the matrix product g0^b0 g1^b1 g2^b2 g3^b3 of the documented basis matrices with b the bits of n. Compile-time GammaConst gammas agree with run-time ones, chiralProjectPlus/Minus equal (1 +- Gamma(15))/2 times the field, and products of gammas acting on fields compose associatively.",
["inputs","programs"],"all 16 indices, both sides, both bases, every spin-carrying field type, random fields and chains of gammas",
"64+ hand-expanded special cases; the tests exercise none of them with assertions.",
["include/qdp_primgamma.h","include/qdp_primspinmat.h","include/qdp_primspinvec.h","include/qdp_primspinmatvec.h","include/qdp_gammafunc.h"],
[("gammaN/GammaConst multiply","include/qdp_primspinvec.h, include/qdp_primspinmat.h"),("Dirac-Pauli variants","include/qdp_primspinvec.h")])
p("P08","Spin projection and reconstruction realise 1 +- gamma_d",
"For each direction d and sign, spinReconstructDirSign(spinProjectDirSign(psi)) equals (1 +- gamma_d) psi, the projection itself is the half spinor of the documented upper components, and the functional forms spinProject(psi,d,sign)/spinReconstruct(chi,d,sign) dispatch to the same operation. Fused forms (with a colour-matrix multiply, adj multiply, += accumulation, shifts, or on any subset) equal the composition of the separate steps for every lattice size.",
["inputs","programs","configurations"],"all directions and signs, random half and full spinors, generic and SSE specialisations, arbitrary subsets",
"Optimised evaluators are chosen by expression shape and precision; only a handful of shapes occur in the tests and none is asserted.",
["include/qdp_primspinvec.h","include/scalarsite_generic/generic_spin_project.h","include/scalarsite_generic/qdp_scalarsite_generic_spin_project_evaluates.h"],
[("spinProject*/spinReconstruct*","include/qdp_primspinvec.h, include/scalarsite_generic, include/scalarsite_sse")])
p("P09","Optimised vector (BLAS) kernels equal the plain expression",
"Every vector update recognised by the optimised evaluators (a*x, a*x+-y, x+-y, a*x+-b*y, +=/-= forms, real or complex scalar on either side, chirally projected variants, norms, innerProduct, innerProductReal, localNorm2-type sums, in single and double precision) gives the value of the mathematical expression to rounding at each site. The result is independent of subset kind, lattice size, operand order, and of the destination being also an operand (y = a*x + y, x = a*x).",
["inputs","configurations"],"random scalars (including 0, 1, -1), vectors, subsets, sizes, in-place and out-of-place forms, generic and SSE builds, both precisions",
"tests/test_vaxpy_double checks fixed kernels directly on full sites in the SSE build; dispatch from expressions, unordered subsets, in-place forms and single precision are untested.",
["include/scalarsite_generic/qdp_scalarsite_generic_blas.h","include/scalarsite_generic/qdp_scalarsite_generic_cblas.h","include/scalarsite_sse","lib/scalarsite_sse","lib/qdp_scalarsite_specific.cc"],
[("evaluate specialisations","include/scalarsite_generic/qdp_scalarsite_generic_blas*.h, include/scalarsite_sse/qdp_scalarsite_sse_blas*.h"),("kernels","lib/scalarsite_sse/*.cc, include/scalarsite_generic/generic_blas_*.h")])
p("P10","Optimised SU(3) matrix kernels equal the plain matrix product",
"Every colour-matrix expression recognised by the optimised evaluators (M*M, adj(M)*M, M*adj(M), adj(M)*adj(M), scaled and accumulating (+=, -=) forms, M = M + M, matrix times colour vector, half spinor, fermion or propagator, with and without adj) gives the elementwise matrix algebra to rounding, for general (not only unitary) matrices. The result is independent of subset kind, lattice size and whether the operation is specialised or evaluated generically.",
["inputs","configurations"],"random general 3x3 matrices and vectors, all expression shapes, subsets, both precisions, generic and SSE builds",
"tests/test_matmat_double checks fixed double kernels in the SSE build only; expression dispatch, subsets, single precision and matrix-vector forms are untested.",
["include/scalarsite_generic/qdp_scalarsite_generic_linalg.h","include/scalarsite_sse/qdp_scalarsite_sse_linalg_double.h","lib/scalarsite_sse"],
[("matrix kernels","include/scalarsite_generic/generic_mult_*.h, generic_mat_vec.h, generic_adj_mat_vec.h; lib/scalarsite_sse/sse_linalg_*.cc")])
p("P11","Global reductions equal the sum over exactly the chosen sites",
"sum, norm2, innerProduct, innerProductReal, globalMax, globalMin, sumMulti and their multi1d and subset forms equal the exact mathematical reduction over precisely the sites of the subset (innerProduct conjugating its left argument) to rounding, in double-precision accumulation where the result type is double. sumMulti over a Set gives one entry per subset in colour order, the entries adding up to the global sum, for lattice, scalar and array arguments.",
["inputs","programs","configurations"],"all field types and expressions, all subsets and Sets including empty and single-site ones, random lattice sizes",
"The tests only print reductions; a missed site, a wrong conjugation or a wrong type of accumulation changes no exit status.",
["include/qdp_scalar_specific.h","include/qdp_globalfuncs.h","include/qdp_globalfuncs_subtype.h","include/scalarsite_generic"],
[("sum/norm2/innerProduct/sumMulti/globalMax/Min","include/qdp_scalar_specific.h"),("local_sumsq/vcdot kernels","include/scalarsite_generic, lib/scalarsite_sse")])
p("P12","Random fields depend only on seed, history and global site",
"random and gaussian fills are a deterministic function of the seed, the history of generator calls and the global coordinates, the same in every layout and on whatever subset, each site drawing from the documented 47-bit linear congruential sequence at its lexicographic offset and the global seed advancing by the same amount per fill regardless of subset. RNG::setrn(s) followed by savern returns s, restoring a saved seed replays the identical stream, uniform values are the 47-bit state divided by 2^47 in single precision, and gaussian values are the Box-Muller transform of those uniforms. The separate RANNYU generator is the 48-bit linear congruential sequence with multiplier 31167285 and increment 1 over four 12-bit limbs, restorable by its setrn/savern at any time, before the first draw as well.",
["inputs","histories","configurations"],"all seeds, sequences of scalar and lattice draws on arbitrary types and subsets, save/restore points, lattice sizes and layouts",
"Reproducibility is a statement about every history and layout; tests fill fields and never compare streams.",
["lib/qdp_random.cc","include/qdp_random.h","include/qdp_scalar_specific.h","include/qdp_primseed.h","include/qdp_simpleseed.h","lib/qdp_rannyu.cc"],
[("RNG state, sranf","lib/qdp_random.cc, include/qdp_random.h"),("fill_random/fill_gaussian, PSeed multiply and seedToFloat","include/qdp_primseed.h, include/qdp_reality.h")])
p("P13","Component access reads and writes exactly the named component",
"peekSite, peekColor, peekSpin, QDP_extract and toWordType-style accessors return exactly the addressed site, colour, spin or subset values, and pokeSite, pokeColor, pokeSpin and QDP_insert change exactly those and nothing else, for every field type, index and site. copymask and where select per site on their mask, and extracting then inserting is the identity.",
["inputs","histories","configurations"],"all field types, all valid index tuples and coordinates, arbitrary subsets, sequences of interleaved pokes and peeks",
"Off-target writes are seen only when every other component is compared for every index, which no test does.",
["include/qdp_scalar_specific.h","include/qdp_outer.h","include/qdp_primmatrix.h","include/qdp_primvector.h","include/qdp_globalfuncs.h"],
[("peekSite/pokeSite/QDP_extract/QDP_insert/copymask","include/qdp_scalar_specific.h"),("peekColor/pokeColor/peekSpin/pokeSpin","include/qdp_outer.h, include/qdp_prim*.h")])
p("P14","Binary I/O is big-endian, layout-independent and lossless",
"What a BinaryWriter (file or buffer) writes for any sequence of primitives, strings, arrays, pairs, vectors, lists, maps and lattice or scalar fields is the documented big-endian byte stream, with multi1d..multiNd preceded by their sizes, and lattice fields ordered lexicographically whatever the layout. The matching sequence of reads returns bit-identical values, including reads or writes of single sites and of lattice subsets (time slices), seek/rewind positioning, and little-endian array reads.",
["inputs","histories","configurations"],"all sequences of typed writes and reads, values including NaN, infinities and denormals, sizes including 0, all layouts",
"No test performs I/O; format stability for every value, size and layout is a statement about all inputs.",
["lib/qdp_io.cc","include/qdp_io.h","lib/qdp_scalar_specific.cc","lib/qdp_byteorder.cc"],
[("BinaryReader/BinaryWriter and buffer/file subclasses","lib/qdp_io.cc"),("lattice read/write","lib/qdp_scalar_specific.cc, include/qdp_scalar_specific.h"),("byte swapping","lib/qdp_byteorder.cc")])
p("P15","Stream checksums are the CRC-32 of the bytes transferred",
"The checksum of a BinaryWriter or BinaryReader equals the standard CRC-32 of exactly the bytes written or read since opening, rewind or seek, however the transfer was split into calls, so the checksum on writing equals the checksum on reading back the same stream, and crc32 composes incrementally (little-endian array reads alone are not counted). Every freshly opened reader or writer, file or buffer, starts from zero, and changing any byte changes the checksum.",
["inputs","histories"],"all byte streams, all splits into typed calls, seeks, rewinds and corruptions, over file, buffer and read-write streams",
"A property of every history of calls; no test computes a checksum.",
["lib/qdp_crc32.cc","lib/qdp_io.cc","include/qdp_io.h"],
[("crc32 table and update","lib/qdp_crc32.cc"),("checksum members","lib/qdp_io.cc, include/qdp_io.h")])
p("P16","Text I/O round-trips and buffers equal files",
"Values written by a TextFileWriter or TextBufferWriter (strings, booleans, all integer widths, float, double, complex and scalar/lattice fields offering text output) are read back equal by the matching reader, exactly for integers, booleans and single-token strings and to the stream's printed precision for floating point. The buffer classes produce the same characters as the file classes, and QDPIO's and the StandardOutputStream's formatted output equals std::ostream's.",
["inputs","histories"],"all sequences of typed text writes and reads, extreme integers and floats, interleaved types",
"No test performs text I/O.",
["lib/qdp_io.cc","include/qdp_io.h","lib/qdp_stdio.cc","include/qdp_stdio.h"],
[("TextReader/TextWriter and subclasses","lib/qdp_io.cc"),("StandardInput/OutputStream","lib/qdp_stdio.cc")])
p("P17","NERSC-format gauge data round-trips with its checksum",
"writeArchiv emits, for each site in lexicographic order and each direction, the big-endian 32-bit floats of the first two rows (mat_size 12) or all rows (18) of the link, and readArchiv of those bytes restores every link (third row rebuilt by unitarity) to single precision, for 32- and 64-bit input floats and any layout. The checksum readArchiv returns and computeChecksum(u,mat_size) both equal the 32-bit sum of the stored big-endian words, so any changed word is noticed, and an archive whose header contradicts the lattice or its data is refused.",
["inputs","configurations"],"all SU(3) gauge fields, lattice sizes, layouts, mat_size 12 and 18, float sizes 4 and 8",
"The archive code is not covered by any test; it interleaves layout, byte order, precision and SU(3) reconstruction.",
["lib/qdp_scalar_specific.cc","lib/qdp_iogauge.cc","include/qdp_iogauge.h"],
[("readArchiv, writeArchiv, computeChecksum","lib/qdp_scalar_specific.cc")])
p("P18","multi1d to multiNd arrays are independent values with faithful indexing",
"multi1d, multi2d, multi3d, multi4d, multi5d and multiNd store each index tuple in its own element with the last index fastest, every access form (operator(), chained operator[], multi1d index, slice views) reaching the same element. Copying, assigning (self-assignment included), resizing and filling give deep, independent values of the right sizes, slice views write through to the parent, and multi1d arithmetic, comparison, concat and sort-type helpers act elementwise.",
["inputs","histories"],"all sizes (0 included), index tuples and histories of construct/copy/assign/resize/fill/slice operations",
"Containers are used with one or two shapes in the tests; wrong strides or shared storage appear only for non-cubic shapes and particular histories.",
["include/qdp_multi.h","include/qdp_arrays.h"],
[("multi1d..multi5d, multiNd","include/qdp_multi.h"),("elementwise arithmetic and comparison","include/qdp_multi.h"),("Array1dO etc.","include/qdp_arrays.h")])
p("P19","Disk and memory map objects behave as a persistent key-value store",
"For every history of insert, update, get, exist, keys, size, flush, close and reopen, a MapObjectDisk and a MapObjectMemory answer as a plain map from keys to last-written values would, each key being stored once and a get of an absent key reported without altering the store. After closing and reopening a MapObjectDisk file, whatever the order in which keys were inserted, read or updated, every value and the user data are returned unchanged, and a read-only MapObjectDiskMultiple answers with the first of its files that has the key.",
["histories","inputs"],"all operation histories over arbitrary keys and values, in any interleaving of reads and writes, with reopen",
"Corruption needs a specific interleaving (insert after get, update then insert, reopen); no test uses these classes.",
["lib/qdp_map_obj_disk.cc","include/qdp_map_obj_disk.h","include/qdp_map_obj_memory.h","include/qdp_map_obj.h"],
[("MapObjectDisk open/insert/get/close","include/qdp_map_obj_disk.h, lib/qdp_map_obj_disk.cc"),("MapObjectMemory","include/qdp_map_obj_memory.h")])
p("P20","Time-slice I/O stores and restores exactly the addressed slices",
"TimeSliceIO writes exactly the sites of its time slice, and reading a slice changes exactly those sites of the destination to the stored values, so writing the slices of a field in any order, through a stream or as values in a map object, and reading them back restores the field bit-for-bit. The data written for a slice are independent of the layout.",
["inputs","histories","configurations"],"all field types, time slices (of the last direction), orders of writing and reading, lattice sizes and layouts",
"No test covers it; partial-lattice I/O errors are visible only in the sites that should not change.",
["include/qdp_disk_map_slice.h","include/qdp_scalar_specific.h","lib/qdp_scalar_specific.cc"],
[("TimeSliceIO bin read/write","include/qdp_disk_map_slice.h"),("readOLattice/writeOLattice with start/stop","lib/qdp_scalar_specific.cc, include/qdp_scalar_specific.h")])
p("P21","Results do not depend on thread count, layout or build options",
"The same data-parallel program (fills, expressions, shifts, subset assignments, maps, random fields) leaves bit-equal integers and rounding-equal floating-point values at every global site, and rounding-equal reductions, whatever the number of OpenMP threads and whichever layout, optimised-kernel or allocator option the library is built with. The work on any number of sites is shared out so that each site is done exactly once. Repeating a run with the same seed and options reproduces it.",
["schedules","programs","configurations"],"random programs run with 1..k threads, subsets smaller than the thread count included, in every layout and with and without the SSE and generic optimisations",
"Races, bad work splits and layout dependence need particular thread counts, lattice sizes and builds; the tests run one thread in one layout.",
["include/qdp_dispatch.h","include/qdp_scalar_specific.h","lib/qdp_scalar_specific.cc","lib/qdp_scalarsite_specific.cc","lib/qdp_scalar_layout.cc"],
[("dispatch_to_threads","include/qdp_dispatch.h"),("threaded evaluate/sum/random","include/qdp_scalar_specific.h")])
p("P22","QDP objects are values that own their storage",
"Copying, assigning, returning and passing lattice, scalar and multi1d-of-lattice objects give deep copies that never share storage, element references and subset views refer to the object they were taken from, and the allocator gives distinct aligned blocks that are all released. No operation of the interface reads or writes outside its operands or leaks, for any lattice size and any order of creation and destruction.",
["histories","inputs","configurations"],"random histories of creation, copy, assignment, modification, extraction and destruction of fields on random lattice sizes, run under address and undefined-behaviour instrumentation as well",
"Sharing and lifetime errors depend on the order of operations and on sizes; the tests create objects in one fixed order without instrumentation.",
["include/qdp_outer.h","include/qdp_outersubtype.h","lib/qdp_default_allocator.cc","include/qdp_default_allocator.h","lib/qdp_pool_allocator.cc"],
[("OLattice alloc_mem/free_mem, copy and assignment","include/qdp_outer.h"),("QDPDefaultAllocator","lib/qdp_default_allocator.cc")])
p("P23","Colour and quark contractions realise their epsilon-tensor formulas",
"colorContract, colorVectorContract, colorCrossProduct and quarkContract12, 13, 14, 23, 24, 34 equal their epsilon-tensor and spin-index sums (the two digits of quarkContractXX naming the spin indices summed over) for arbitrary operands, with the implied antisymmetry and multilinearity. quarkContract at the spin and colour level, outerProduct, localColorInnerProduct, traceColor/traceSpin-based compositions agree with the explicit index sums at every site.",
["inputs","configurations"],"random operands of all accepted types, both precisions",
"Long hand-expanded index formulas, none of them executed by the stable tests.",
["include/qdp_primcolormat.h","include/qdp_primcolorvec.h","include/qdp_primspinmat.h","include/qdp_globalfuncs.h"],
[("colorContract, quarkContractXX","include/qdp_primcolormat.h, include/qdp_primspinmat.h"),("colorCrossProduct, colorVectorContract","include/qdp_primcolorvec.h")])
p("P24","Requests that cannot be served are refused, valid neighbours are served",
"A request the library declares invalid ends with an error (a message and an abort, an exception, or a failure state the caller can query): arrays of different size combined, reading or indexing beyond the rank or bounds of a checked array, use of an array without memory, a direction, sign, colour or time slice out of range, lattice sizes the layout cannot have, files that cannot be opened, binary data that end early, text that does not parse, a full device, absent keys, damaged or foreign map files, missing command line values. It never crashes, returns stale or invented data, or writes outside its memory, and the nearest valid request is served with the right value.",
["inputs","fault_sequences"],"requests drawn on both sides of each limit, damaged and truncated data (any byte, any length), messages of any length, in every layout and allocator, under address instrumentation as well",
"Tests exercise valid requests; error paths and the boundary between valid and invalid run only on inputs no test has.",
["lib/qdp_scalar_init.cc","lib/qdp_scalar_layout.cc","lib/qdp_util.cc","lib/qdp_io.cc","lib/qdp_map_obj_disk.cc","include/qdp_map_obj_disk.h","include/qdp_multi.h","lib/qdp_subset.cc","include/qdp_disk_map_slice.h"],
[("multi1d..multi5d, multiNd checks","include/qdp_multi.h"),("Layout::create","lib/qdp_scalar_layout.cc"),("QDP_error_exit","lib/qdp_stdio.cc, lib/qdp_util.cc"),("BinaryReader fail, readArrayPrimaryNode","lib/qdp_io.cc"),("MapObjectDisk open/get checks","include/qdp_map_obj_disk.h, lib/qdp_map_obj_disk.cc")])
p("P25","A map file whose writer dies at any write keeps what was last flushed",
"Whatever the history of inserts, updates, reads, flushes, closes and reopens of a MapObjectDisk, if the process dies at any of its writes (or in the middle of an appending one), opening the file again gives exactly the keys, values and user data of the last completed flush or close, or of the one in progress, and the file can be written on. A file that was never flushed, or that ends early, is refused rather than opened with keys missing or invented.",
["crash_points","histories"],"random histories over several lives of the file; every write call of the file stream as the point of death, with any part of an appending write done; values of any length",
"Tests never kill a writer; the order of data, table and link matters only at the instants between them.",
["include/qdp_map_obj_disk.h","lib/qdp_map_obj_disk.cc","lib/qdp_io.cc"],
[("MapObjectDisk insert, flush, closeWrite, readCheckHeader, readMapBinary","include/qdp_map_obj_disk.h")])
open('properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    import re
