Q2 = [("generic", 1), ("sse", 1)]
LAY = [("generic", 1), ("lexico", 1), ("cb3d", 1), ("cb32", 1)]
PROPS = {
 "P01": dict(src=["common.cc", "p01.cc"], quick=LAY + [("nd3cb2", 1), ("nd5lex", 1), ("nd5cb32", 1)], thorough=LAY + [(x, 1) for x in ("nd3", "nd3cb2", "nd3cb3d", "nd3cb32", "nd5", "nd5lex", "nd5cb3d", "nd5cb32")], per=4,
   rule="a lattice (or dimension list) of more than one site; every site of it is checked"),
 "P02": dict(src=["common.cc", "p02.cc"], quick=LAY, thorough=LAY + [("omp", 1), ("asan", 1), ("nd3", 1), ("nd5", 1)], rule="colourings with more than one colour; histories containing a copy or assignment"),
 "P03": dict(src=["common.cc", "p03a.cc", "p03b.cc"], quick=Q2 + [("cb3d", 1)], thorough=Q2 + [("lexico", 1), ("cb3d", 1), ("cb32", 1), ("omp", 1), ("ssedbl", 1), ("plain", 1)],
   rule="non-empty subset; every site in and outside the subset is compared with the whole-lattice operation"),
 "P04": dict(src=["common.cc", "p04.cc"], quick=LAY + [("sse", 1), ("nd3cb2", 1), ("nd5lex", 1)], thorough=LAY + [(x, 1) for x in ("sse", "omp", "nd3", "nd3cb2", "nd3cb3d", "nd5", "nd5lex", "nd5cb32", "plain")], rule="lattice of more than one site and a non-empty destination subset; every site is compared"),
 "P05": dict(src=["common.cc", "p05a.cc", "p05b.cc", "p05c.cc", "p05d.cc", "p05e.cc", "p05f.cc", "p05g.cc", "p05h.cc", "p05i.cc"] + ["p05%s.cc" % x for x in "jklmnopqrs"], quick=Q2, time={"quick": 22}, rule="non-empty destination subset; every compared site has all components checked"),
 "P06": dict(src=["common.cc", "p06a.cc", "p06b.cc", "p06c.cc", "p06d.cc"], quick=Q2 + [("dbl", 1)], thorough=Q2 + [(x, 1) for x in ("dbl", "ssedbl", "plain", "cb3d", "lexico")], rule="non-empty destination subset (scalars: one value); every site is compared with the C++ result"),
 "P07": dict(src=["common.cc", "p07.cc"], quick=Q2 + [("dbl", 1)], rule="gamma index n > 0 and a non-empty destination; every component is compared"),
 "P08": dict(src=["common.cc", "p08a.cc", "p08b.cc", "p08c.cc"], quick=Q2 + [("agg", 1), ("aggomp", 1)], thorough=Q2 + [(x, 1) for x in ("agg", "aggomp", "dbl", "ssedbl", "cb3d", "omp")], rule="non-empty destination (kernels: more than one vector); every component is compared"),
 "P09": dict(src=["common.cc"] + ["p09%s.cc" % x for x in "abcdef"], quick=Q2 + [("omp", 1)], thorough=Q2 + [(x, 1) for x in ("dbl", "ssedbl", "cb3d", "sseomp", "plain")], rule="non-empty destination subset; every component of every site is compared"),
 "P10": dict(src=["common.cc"] + ["p10%s.cc" % x for x in "abcdef"], quick=Q2 + [("sseomp", 1)], thorough=Q2 + [(x, 1) for x in ("dbl", "ssedbl", "cb3d", "sseomp", "plain")], rule="non-empty destination subset; every component of every site is compared"),
 "P11": dict(src=["common.cc"] + ["p11%s.cc" % x for x in "abc"], quick=Q2 + [("sseomp", 1)], thorough=Q2 + [(x, 1) for x in ("dbl", "ssedbl", "sseomp", "omp", "cb3d", "plain")], rule="non-empty subset (sumMulti: more than one subset; extremes: more than one site)"),
 "P12": dict(src=["common.cc", "p12.cc", "p12b.cc"], quick=LAY + [("omp", 1), ("dbl", 1)], thorough=LAY + [(x, 1) for x in ("omp", "dbl", "sse", "nd3", "nd3cb3d", "nd5", "nd5lex", "nd5cb32", "plain")], rule="a history with at least one fill of a non-empty subset or scalar; every word and the seed are compared with the 47-bit model"),
 "P13": dict(src=["common.cc", "p13.cc"], quick=Q2 + [("cb3d", 1), ("omp", 1)], thorough=Q2 + [(x, 1) for x in ("lexico", "cb3d", "cb32", "omp", "dbl", "ssedbl", "asan", "nd3", "nd5")], rule="a history of at least two accesses; after each one every component of every site is compared with the mirror"),
 "P14": dict(src=["common.cc", "items.cc", "p14.cc"], quick=LAY + [("dbl", 1)], thorough=LAY + [(x, 1) for x in ("dbl", "omp", "asan", "nd3", "nd3cb3d", "nd5lex", "nd5cb32")], rule="a stream of at least one item; all bytes and all values read back are compared with the encoder"),
 "P15": dict(src=["common.cc", "items.cc", "p15.cc"], quick=[("generic", 1), ("lexico", 1)], thorough=[(x, 1) for x in ("generic", "lexico", "cb3d", "dbl", "asan")], rule="at least one transfer; the checksum is compared after every transfer and reset"),
 "P16": dict(src=["common.cc", "p16.cc"], quick=[("generic", 1), ("dbl", 1)], thorough=[(x, 1) for x in ("generic", "dbl", "lexico", "asan")], rule="a stream of at least one item; every value and every character is compared"),
 "P17": dict(src=["common.cc", "p17.cc"], quick=LAY + [("dbl", 1)], thorough=LAY + [(x, 1) for x in ("dbl", "asan", "omp", "sse")], rule="payload cases: a lattice of more than one site; every byte, word and link component is compared"),
 "P18": dict(src=["common.cc", "p18.cc"], quick=[("generic", 1), ("asan", 1)], thorough=[("generic", 1), ("dbl", 1), ("asan", 2)], rule="a history with a copy or assignment or of several operations; comparisons and arithmetic of non-empty arrays; every element through every access form after each operation"),
 "P19": dict(src=["common.cc", "p19.cc"], quick=[("generic", 1), ("lexico", 1), ("asan", 1)], thorough=[(x, 1) for x in ("generic", "lexico", "cb3d", "dbl", "asan", "asan")], rule="a history with at least two insertions; every key is looked up in the map, in the parsed file and after reopening"),
 "P20": dict(src=["common.cc", "p20.cc"], quick=LAY + [("asan", 1)], thorough=LAY + [(x, 1) for x in ("asan", "dbl", "nd3", "nd3cb3d", "nd5", "nd5lex", "nd5cb32")], rule="a lattice of more than one time and more than one site per time; every site of the destination is compared after each slice"),
 "P21": dict(src=["common.cc"] + ["p21%s.cc" % x for x in "abcd"], omp=8, quick=[("sseomp", 2), ("ompcb32", 2), ("generic", 1), ("lexico", 1), ("cb3d", 1), ("plain", 1), ("ssedbl", 1), ("pool", 1)], thorough=[("sseomp", 3), ("ompcb32", 3), ("omp", 2)] + [(x, 1) for x in ("generic", "sse", "lexico", "cb3d", "cb32", "plain", "dbl", "ssedbl", "plaindbl", "asan", "pool")], per=6, time=dict(quick=24), rule="a program of several statements on a lattice of more than one site; every component of every site and every reduction is compared with the one reference, so all builds and thread counts agree with each other"),
 "P22": dict(src=["common.cc", "p22.cc", "p02.cc", "items.cc", "p14.cc", "p16.cc", "p18.cc", "p19.cc", "p20.cc", "p03a.cc", "p04.cc", "p09a.cc", "p10a.cc", "p11a.cc", "p12.cc"], defs=("-DVF_MEMONLY",), quick=Q2 + [("sseasan", 1), ("ubsan", 1), ("pool", 1)], thorough=Q2 + [(x, 1) for x in ("pool", "memdebug", "sseasan", "ubsan", "lexasan", "asan", "cb3d", "dbl", "omp")], time=dict(quick=20), rule="histories: at least one copy, assignment or transfer on a lattice of more than one site; allocator histories: at least one release; every object is compared with its mirror after each step"),
 "P23": dict(src=["common.cc", "p23a.cc", "p23b.cc"], quick=Q2 + [("dbl", 1)], thorough=Q2 + [(x, 1) for x in ("dbl", "ssedbl", "cb3d", "omp", "plain")], rule="non-empty destination subset; every component of every site is compared with the explicit index sum"),
 "P24": dict(src=["common.cc", "p24.cc"], quick=[("generic", 3), ("lexico", 1), ("cb3d", 1), ("cb32", 1), ("pool", 1), ("asan", 1)], thorough=[(x, 1) for x in ("generic", "sse", "lexico", "cb3d", "cb32", "pool", "asan", "lexasan", "dbl", "nd5")], rule="the request is one the library has to judge: each runs in a forked child, valid ones have to be served with the right value, invalid ones refused with a message and neither served nor crashed; for damaged or truncated data, something was damaged or cut off"),
 "P25": dict(src=["common.cc", "p25.cc"], quick=[("generic", 2), ("lexico", 1), ("asan", 1)], thorough=[(x, 1) for x in ("generic", "lexico", "cb3d", "dbl", "asan", "lexasan")], rule="the writer of the map file died at one of its write calls at least once; every key of the file it left is then read, and the file is written on"),
}
