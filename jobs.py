"""Which harnesses, node geometries and bounds decide each property."""
class Job:
    def __init__(s, src, defs="", what="", tiers="qt", heavy=False, samples=6, weight=1, **params):
        s.src = src; s.defs = defs; s.params = params; s.heavy = heavy; s.samples = samples; s.weight = weight; s.what = what
        s.tiers = [t for t, l in (("quick", "q"), ("thorough", "t")) if l in tiers]
COMMON_ASSUMPTIONS = [
    "memory allocation never fails; the allocator, memcpy/memset and exception unwinding are modelled by the executor, everything else in the library and libstdc++ headers is executed from its compiled IR",
    "the IR is clang-18 -O1 with libstdc++ 13; sampled paths are replayed against g++ builds",
]
PROPS = {}
def prop(pid, outside, jobs, assumptions=()): PROPS[pid] = dict(outside=outside, jobs=jobs, assumptions=list(assumptions))
G = ["-DLN=2 -DIN=4", "-DLN=3 -DIN=4", "-DLN=3 -DIN=5", "-DLN=5 -DIN=4", "-DLN=4 -DIN=6"]   # elements per leaf, children per internal node
BIG = "-DBIG -DDEPTH=4 -DCONCRETE_FILL"
def shapes(src, defs, what, tiers="qt", ss=range(6), **kw): return [Job(src, defs, what + " (one pre-state shape)", tiers, shape=s, **kw) for s in ss]
LONGER = "longer histories, larger trees and other node geometries than listed"

def chains(src, defs="", n=5, **kw):
    """Trees with internal nodes that have a single child."""
    return [Job(src, G[0] + defs, "nodes with one child", shape=sh, n=n, **kw) for sh in (6, 7)] + [Job(src, G[0] + defs, "longer chains of nodes with one child", shape=6, n=min(n, 4), gone=32, **kw), Job(src, G[1] + defs, "nodes with one child", shape=7, n=n, **kw)]
MV = " -DELEM=Mv"      # see common.h
prop("C01", LONGER + "; element types other than 8-, 32- and 64-bit integers",
    chains("c01", k=1) + [Job("c01", g, "every shape and size up to n, one edit", n=20, k=1) for g in G] +
    [Job("c01", g, "every shape and size up to n, two edits", n=7, k=2, weight=3) for g in (G[0], G[2])] +
    [Job("c01", G[0], "three edits from small trees", n=2, k=3, weight=4), Job("c01", G[0], "every history of edits from the empty tree", mode=1, n=0, k=5, weight=3),
     Job("c01", G[0], "every subset erased from n elements, then one edit", mode=1, n=9, k=1, weight=2), Job("c01", G[1], "every subset erased, then one edit", mode=1, n=10, k=1, weight=2),
     Job("c01", "-DLN=2 -DIN=4 -DVAL=Mv", "elements that a move changes", n=10, k=1), Job("c01", "-DLN=4 -DIN=4 -DVAL=Mv", "elements that a move changes", n=4, k=2), Job("c01", "-DLN=2 -DIN=4 -DVAL=uint8_t", "8-bit elements", n=10, k=1), Job("c01", "-DLN=3 -DIN=4 -DVAL=uint64_t", "64-bit elements", n=10, k=1),
     Job("c01", BIG, "default node size around leaf boundaries", n=129, lo=125, k=1), Job("c01", BIG + " -DVAL=uint8_t", "8-bit elements, more than 255 per leaf", n=505, lo=504, k=1, shape=0, weight=3)] +
    [Job("c01_alias", g, "inserting, pushing and assigning a reference to an element of the tree itself", n=12) for g in G[:3]] +
    [Job("c01", g, "three edits", "t", n=5, k=3, heavy=True) for g in (G[0], G[2])] + [Job("c01", g, "every history of edits from the empty tree", "t", mode=1, n=0, k=7, heavy=True) for g in G[:2]] + [Job("c01", g, "two edits", "t", n=14, k=2, heavy=True) for g in G] +
    [Job("c01", G[0], "every subset erased, then two edits", "t", mode=1, n=9, k=2, heavy=True), Job("c01", G[0], "every subset erased, then one edit", "t", mode=1, n=14, k=1, heavy=True),
     Job("c01", G[0], "one edit in tall trees", "t", n=44, lo=21, k=1, heavy=True), Job("c01", BIG, "default node size, more boundaries", "t", n=380, lo=374, k=1, heavy=True)])
prop("C02", LONGER + "; index types other than size_t, int16_t, int64_t, uint16_t and uint32_t",
    chains("c02", n=3, k=1) + [Job("c02", G[0], "one edit with a symbolic index", n=8, k=1, heavy=True), Job("c02", G[1], "one edit", n=7, k=1, weight=2), Job("c02", "-DLN=3 -DIN=5 -DSZ=uint16_t", "one edit", n=6, k=1), Job("c02", G[3], "one edit", n=8, k=1, weight=2),
     Job("c02", G[0] + " -DSZ=int16_t", "signed index type", n=6, k=1, weight=2), Job("c02", G[1] + " -DSZ=int64_t", "signed index type", n=5, k=1, weight=2), Job("c02", G[0], "two edits", n=3, k=2, weight=3), Job("c02", "-DLN=3 -DIN=4 -DSZ=uint32_t", "two edits", n=2, k=2, weight=3)] +
    [Job("c02", g, "one edit", "t", n=14, k=1, heavy=True) for g in G] + [Job("c02", g, "two edits", "t", n=6, k=2, heavy=True) for g in G[:3]])
prop("C03", LONGER, [Job("c03", G[0], "one keyed operation", n=8, k=1), Job("c03", G[1], "two keyed operations", n=4, k=2, weight=3),
    Job("c03", "-DLN=2 -DIN=4 -DKIND=1 -DBINARY=true", "keyed by second", n=6, k=1), Job("c03", "-DLN=2 -DIN=4 -DKIND=3 -DCMPK=1", "set, reversed order", n=6, k=1), Job("c03", "-DLN=3 -DIN=5 -DKIND=2 -DCMPK=2", "tuple, equivalence classes", n=6, k=1),
    Job("c03", "-DLN=3 -DIN=4 -DBINARY=true", "binary search", n=7, k=1), Job("c03", G[0] + " -DKIND=4 -DBINARY=true", "tuple keyed by its second component", n=6, k=1)] +
    [Job("c03_alias", g + d, "references into the tree as arguments", n=14) for g, d in ((G[0], ""), (G[1], " -DKIND=1 -DBINARY=true"), (G[0], " -DKIND=2"), (G[2], " -DKIND=3"), (G[0], " -DKIND=4"))] + [ Job("c03", "-DLN=2 -DIN=4", "symbolic stored keys", n=3, k=1, keys=1)] +
    [Job("c03", d, "one keyed operation", "t", n=12, k=1, heavy=True) for d in (G[0], G[2] + " -DBINARY=true", G[1] + " -DKIND=1 -DCMPK=1", G[0] + " -DKIND=2 -DCMPK=2 -DBINARY=true", G[0] + " -DKIND=3")] +
    [Job("c03", G[0], "two keyed operations", "t", n=6, k=2, heavy=True), Job("c03", G[0], "three keyed operations", "t", n=2, k=3, heavy=True), Job("c03", G[0], "symbolic stored keys", "t", n=4, k=1, keys=1, heavy=True)])
prop("C04", LONGER, [Job("c04", g + d, "all keys symbolic", n=9, weight=2) for g, d in ((G[0], ""), (G[2], " -DBINARY=true"), (G[0], " -DKIND=3 -DCMPK=2 -DBINARY=true"), (G[1], " -DKIND=2 -DCMPK=1"), (G[0], " -DKIND=1 -DCMPK=2"), (G[3], " -DBINARY=true -DCMPK=1"))] +
    [Job("c04", G[0] + d, "after a replaced entry", n=6, edit=1) for d in ("", " -DBINARY=true -DCMPK=2")] + [Job("c04", G[0] + d, "after erasing", n=6, cut=1) for d in ("", " -DBINARY=true")] +
    [Job("c04", G[0] + d, "fixed stored keys, symbolic 32-bit key", n=14, lo=9, ckeys=1, cut=1) for d in ("", " -DBINARY=true")] +
    [Job("c04", g + d, "all keys symbolic", "t", n=16, lo=1, heavy=True) for g in G[:4] for d in ("", " -DBINARY=true -DCMPK=2", " -DKIND=3 -DCMPK=1")] +
    [Job("c04", g + d, "after a replaced entry and erasing", "t", n=9, edit=1, cut=1, heavy=True) for g in G[:3] for d in ("", " -DBINARY=true")])
prop("C05", LONGER, chains("c05", k=1) + [Job("c05", g, "one edit", n=12, k=1) for g in G] + [Job("c05", G[0] + " -DSUMK=%d" % s, "one edit, other element and sum types", n=8, k=1) for s in range(1, 6)] + [Job("c05", G[0], "two edits", n=4, k=2, weight=3)] +
    [Job("c05", g + " -DSUMK=%d" % s, "one edit", "t", n=14, k=1, heavy=True) for g in G[:3] for s in range(6)] + [Job("c05", g, "two edits", "t", n=7, k=2, heavy=True) for g in G[:3]] + [Job("c05", G[0], "three edits", "t", n=2, k=3, heavy=True)])
prop("C06", LONGER, [Job("c06", g + d, "tall trees", deep=1, n=n, lo=12) for g, d, n in ((G[0], "", 20), (G[1], " -DSUMK=1", 20), (G[2], " -DSUMK=2", 24))] + [Job("c06", g, "tall trees", "t", deep=1, n=44, lo=12, heavy=True) for g in G[:4]] + shapes("c06", G[0], "one edit", n=5, k=1) + shapes("c06", G[2], "one edit", n=5, k=1) + [j for s in (1, 2, 3) for j in shapes("c06", G[0] + " -DSUMK=%d" % s, "one edit, other sum types", ss=(0, 1), n=4, k=1)] +
    [j for g in G[:3] for j in shapes("c06", g, "one edit", "t", n=7, k=1, heavy=True)])
prop("C07", LONGER, [Job("c07", "" + g + d, "tall trees, every range", deep=1, n=n, lo=n) for g, d, n in ((G[0], " -DVBITS=4", 18), (G[1], " -DVBITS=3 -DKINDM=2", 20), (G[0], " -DVBITS=3 -DKINDM=1", 17))] + [Job("c07", "" + g + " -DVBITS=6", "tall trees, every range", "t", deep=1, n=28, lo=17, heavy=True) for g in G[:3]] + shapes("c07", "-DLN=2 -DIN=4 -DVBITS=3", "whole tree", n=6, k=1, q=0) + shapes("c07", "-DLN=2 -DIN=4 -DVBITS=2", "ranges", n=5, k=1, q=1) +
    [j for m in (1, 2, 3, 4) for j in shapes("c07", "-DLN=2 -DIN=4 -DVBITS=2 -DKINDM=%d" % m, "other comparators and extractors", ss=(1, 4), n=4, k=1, q=0)] + shapes("c07", "-DLN=3 -DIN=4 -DVBITS=2", "ranges", ss=(1, 3), n=4, k=1, q=1) +
    [j for g in G[:3] for j in shapes("c07", g + " -DVBITS=3", "whole tree", "t", n=8, k=1, q=0, heavy=True)] + [j for g in G[:3] for j in shapes("c07", g + " -DVBITS=2", "ranges", "t", n=7, k=1, q=1, heavy=True)])
prop("C08", LONGER, [Job("c07", "-DMAXQ " + g + d, "tall trees, every range", deep=1, n=n, lo=n) for g, d, n in ((G[0], " -DVBITS=4", 18), (G[1], " -DVBITS=3 -DKINDM=2", 20), (G[0], " -DVBITS=3 -DKINDM=1", 17))] + [Job("c07", "-DMAXQ " + g + " -DVBITS=6", "tall trees, every range", "t", deep=1, n=28, lo=17, heavy=True) for g in G[:3]] + shapes("c07", "-DMAXQ -DLN=2 -DIN=4 -DVBITS=3", "whole tree", n=6, k=1, q=0) + shapes("c07", "-DMAXQ -DLN=2 -DIN=4 -DVBITS=2", "ranges", n=5, k=1, q=1) +
    [j for m in (1, 2, 3, 4) for j in shapes("c07", "-DMAXQ -DLN=2 -DIN=4 -DVBITS=2 -DKINDM=%d" % m, "other comparators and extractors", ss=(1, 4), n=4, k=1, q=0)] + shapes("c07", "-DMAXQ -DLN=3 -DIN=4 -DVBITS=2", "ranges", ss=(1, 3), n=4, k=1, q=1) +
    [j for g in G[:3] for j in shapes("c07", "-DMAXQ " + g + " -DVBITS=3", "whole tree", "t", n=8, k=1, q=0, heavy=True)] + [j for g in G[:3] for j in shapes("c07", "-DMAXQ " + g + " -DVBITS=2", "ranges", "t", n=7, k=1, q=1, heavy=True)])
V34 = {0: "", 1: "", 2: "", 3: " -DVBITS=2", 4: " -DVBITS=1"}
def trees(src, g, what, tiers="qt", ts=range(5), **kw):
    """The same job for several mixin sets; where the maximum is maintained, paths fork on the order of the elements, so the tree is kept smaller there."""
    r = []
    for t in ts:
        p = dict(kw)
        if t >= 3:
            lim = {1: (7, 4), 2: (5, 3)}[p.get("k", 1)][t - 3] + (2 if tiers == "t" else 0)
            p["n"] = min(p["n"], lim); p["weight"] = 3
        r.append(Job(src, g + " -DTREE=%d" % t + V34[t], what + " (mixin set %d)" % t, tiers, **p))
    return r
prop("C09", LONGER, chains("c09", " -DELEM=Mv", k=1) + [Job("c09", g + MV, "elements that a move changes", n=n, k=1 + (n < 9), first=1) for g, n in ((G[0], 4), (G[0], 14), (G[2], 16))] + trees("c09", G[0], "edits, snapshots and resumption", n=5, k=2) + trees("c09", G[1], "edits, snapshots and resumption", ts=(0, 2), n=6, k=2) + [Job("c09", G[0], "three steps", n=4, k=3, heavy=True), Job("c09", G[0], "tall trees, one step", n=24, lo=9, k=1), Job("c09", G[2], "one step", n=24, lo=9, k=1)] +
    [Job("c09", g, "three steps", "t", n=7, k=3, heavy=True) for g in G[:2]] + trees("c09", G[0], "two steps", "t", n=10, k=2, heavy=True) + [Job("c09", G[0], "four steps", "t", n=2, k=4, heavy=True)])
prop("C10", LONGER, chains("c10", " -DELEM=Mv", k=1, slots=2) + [Job("c10", g + MV, "elements that a move changes", n=n, k=1 + (n < 9), slots=2) for g, n in ((G[0], 4), (G[2], 12))] + trees("c10", G[0], "two operations, two versions kept", n=4, k=2, slots=2) + [Job("c10", G[1], "two operations, three versions kept", n=5, k=2), Job("c10", G[0], "versions assigned in place", n=4, k=2, slots=2, how=1), Job("c10", G[0], "tall trees", n=16, lo=9, k=1), Job("c10", G[0], "three operations", n=2, k=3, slots=2, heavy=True)] +
    [Job("c10_map", g + d, "keyed operations", n=5, k=2) for g, d in ((G[0], ""), (G[1], " -DBINARY=true"))] + [Job("c10_map", G[0], "keyed operations in tall trees", n=14, lo=9, k=1)] +
    [Job("c10", G[0], "three operations", "t", n=4, k=3, slots=2, heavy=True), Job("c10", G[1], "three operations", "t", n=4, k=3, slots=2, heavy=True)] + trees("c10", G[0], "two operations", "t", n=8, k=2, heavy=True) +
    [Job("c10_map", g + d, "keyed operations", "t", n=10, k=2, heavy=True) for g in G[:3] for d in ("", " -DKIND=1 -DCMPK=2", " -DKIND=3 -DCMPK=1")])
prop("C11", LONGER, chains("c11", " -DELEM=Mv", k=1) + [Job("c11", G[0] + MV, "elements that a move changes", n=4, k=2)] + trees("c11", G[0], "edits, snapshots, drops and moves of handles", n=5, k=2) + [Job("c11", G[1], "two steps", n=6, k=2), Job("c11", G[2], "two steps", n=6, k=2), Job("c11", G[0], "tall trees", n=16, lo=9, k=1)] +
    [Job("c11", g, "three steps", "t", n=4, k=3, heavy=True) for g in G[:2]] + trees("c11", G[0], "two steps", "t", n=10, k=2, heavy=True))
prop("C12", LONGER, [Job("c12", g + " -DOT=%s" % o, n=6, k=1) for g in G[:3] for o in ("Tok", "Own")] + [Job("c12", G[0] + " -DOT=%s -DMIXK=1" % o, "the type also stored in internal nodes", n=5, k=1) for o in ("Tok", "Own")] + [Job("c12", G[0] + " -DOT=%s -DMIXK=%d" % (o, m), "the type also stored in internal nodes, fixed values", n=8, k=1, conc=1) for m in (2, 3) for o in ("Tok", "Own")] + [Job("c12", G[0] + " -DOT=Own -DMIXK=2", "the type also stored in internal nodes, symbolic values", n=2, k=1)] +
    [Job("c12_map", g + " -DOT=%s" % o, "keyed operations", n=n, k=1) for g, o, n in ((G[0], "Tok", 7), (G[0], "Own", 9), (G[2] + " -DBINARY=true", "Tok", 10), (G[1], "Own", 7))] + [Job("c12_map", G[0] + " -DOT=%s" % o, "two keyed operations", n=2, k=2) for o in ("Tok", "Own")] +
    [Job("c12_map", g + " -DOT=%s" % o, "two keyed operations", "t", n=7, k=2, heavy=True) for g in G[:2] for o in ("Tok", "Own")] +
    [Job("c12", G[0] + " -DOT=%s" % o, "tall trees", n=12, lo=9, k=1) for o in ("Tok", "Own")] + [Job("c12", G[0] + " -DOT=%s" % o, "two steps", n=3, k=2, weight=2) for o in ("Tok", "Own")] +
    [Job("c12", g + " -DOT=%s -DMIXK=%d" % (o, m), "two steps", "t", n=6, k=2, conc=m // 2, heavy=True) for g in G[:2] for m in range(4) for o in ("Tok", "Own")] + [Job("c12", g + " -DOT=Tok -DMIXK=%d" % m, "one step, symbolic values", "t", n=3, k=1, heavy=True) for g in G[:2] for m in (2, 3)])
prop("C13", LONGER, chains("c13", " -DELEM=Mv", k=1) + [Job("c13", G[0] + MV, "elements that a move changes", n=5, k=1)] + trees("c13", G[0], "two edits through one iterator", n=6, k=2) + [Job("c13", g, "one edit, larger trees", n=24, k=1) for g in G] + [Job("c13", g, "iterator older than an assignment", n=8, k=1, stale=1) for g in G[:2]] + [Job("c13", G[1], "two edits", n=8, k=2), Job("c13", G[0], "three edits", n=4, k=3, weight=3)] +
    [Job("c13", g, "three edits", "t", n=8, k=3, heavy=True) for g in G[:3]] + trees("c13", G[0], "two edits", "t", n=14, k=2, heavy=True) + [Job("c13", G[0], "four edits", "t", n=3, k=4, heavy=True)])
prop("C14", LONGER, chains("c14") + [Job("c14", g, "every start and distance", n=n) for g, n in ((G[0], 6), (G[1], 6), (G[2], 6))] + [Job("c14", G[0] + " -DTREE=%d" % t + V34[t], "other mixin sets", n=4 if t < 4 else 3) for t in (1, 2, 3, 4)] +
    [Job("c14", G[0], "iterators older than an assignment", n=4, stale=1, heavy=True)] + [Job("c14", g, "taller trees", n=18, kinds=1, weight=2) for g in G] +
    [Job("c14", g, "every start and distance", "t", n=12, heavy=True) for g in G] + [Job("c14", g, "older than an assignment", "t", n=6, stale=1, heavy=True) for g in G[:2]] + [Job("c14", G[0], "taller trees", "t", n=40, lo=21, kinds=1, heavy=True)])
prop("C15", LONGER, chains("c15", " -DTREE=1", k=0) + [Job("c15", g + " -DTREE=%d" % x, "distances", n=10, k=0, weight=2) for g, x in ((G[0], 1), (G[1], 2), (G[2], 1))] + [Job("c15", G[0] + " -DTREE=1", "distances after an edit", n=5, k=1)] + [Job("c15", g + " -DTREE=1", "distances", "t", n=24, k=0, heavy=True) for g in G] + [Job("c15", g, "every pair of positions", n=10, k=0) for g in G] + [Job("c15", g, "every pair of positions after an edit", n=6, k=1) for g in G[:2]] +
    [Job("c15", g, "every pair of positions", "t", n=24, k=0, heavy=True) for g in G] + [Job("c15", g, "after two edits", "t", n=4, k=2, heavy=True) for g in G[:3]])
prop("C16", LONGER, chains("c16", " -DELEM=Mv", n=3, k=1) + [Job("c16", G[0] + MV, "elements that a move changes", n=6, k=1)] + trees("c16", G[0], "one modification", n=6, k=1) + [Job("c16", g, "one modification, larger trees", n=12, k=1, heavy=True) for g in G[:3]] + [Job("c16", G[0], "two modifications", n=4, k=2, heavy=True)] +
    [Job("c16", g, "two modifications", "t", n=8, k=2, heavy=True) for g in G[:3]] + trees("c16", G[0], "one modification", "t", n=20, k=1, heavy=True) + [Job("c16", G[0], "three modifications", "t", n=3, k=3, heavy=True)])
prop("C17", LONGER, [Job("c17", g + " -DVIA=%d" % v, "every operator", n=6, k=1) for g in G[:2] for v in (0, 1, 2)] + [Job("c17", G[0] + " -DVIA=0 -DPV=%s" % t, "other element types", n=4, k=1) for t in ("uint8_t", "uint64_t", "int32_t")] +
    [Job("c17", G[0] + " -DVIA=%d -DPV=%s -DOPV=%s" % (v, a, b), "operands of another type than the elements", n=4, k=1) for v, a, b in ((0, "uint8_t", "u32"), (1, "uint8_t", "u64"), (2, "uint16_t", "u64"), (1, "u32", "uint8_t"), (0, "u32", "u64"))] +
    [Job("c17", G[0] + " -DVIA=%d -DWIDE -DPV=uint8_t" % v, "narrow elements, wide sums", n=4, k=1) for v in (0, 1)] + [Job("c17", "-DLN=2 -DIN=4 -DVIA=0 -DPV=uint8_t -DWITHMIN", "with minima", n=4, k=1)] +
    [Job("c17", G[0] + " -DVIA=%d" % v, "tall trees", n=12, lo=9, shape=0, k=1) for v in (0, 1, 2)] +
    [Job("c17", g + " -DVIA=%d" % v, "two operators in a row", "t", n=4, k=2, heavy=True) for g in G[:2] for v in (0, 1, 2)] + [Job("c17", G[0] + " -DVIA=%d" % v, "tall trees", "t", n=20, lo=9, k=1, heavy=True) for v in (0, 1, 2)])
prop("C18", LONGER + "; errors other than those named", [Job("c18", G[0] + " -DKIND=0", "keyed errors", n=7, k=1, weight=3), Job("c18", G[1] + " -DKIND=0", "keyed errors", n=6, k=1, weight=3), Job("c18", G[0] + " -DKIND=1", "mismatching keys and other errors", n=9, k=1, weight=2), Job("c18", G[1] + " -DKIND=1", n=9, k=1, weight=2), Job("c18", G[0] + " -DKIND=1", "two errors", n=4, k=2, weight=2), Job("c18", G[0] + " -DKIND=2", n=6, k=1, vb=2, weight=2)] +
    [Job("c18", G[0] + " -DKIND=0", "keyed errors", "t", n=12, k=1, heavy=True), Job("c18", G[0] + " -DKIND=0", "two errors", "t", n=4, k=2, heavy=True), Job("c18", G[2] + " -DKIND=1", "t", "t", n=14, k=1, heavy=True), Job("c18", G[1] + " -DKIND=2", "", "t", n=7, k=1, vb=2, heavy=True)])
prop("C19", "more than three threads; more than one operation per thread; weaker memory orders than those the executor models (see DESIGN.md)",
    [Job("c19", G[0], "two threads", n=3, lo=3, shape=0), Job("c19", G[0], "two threads", n=5, shape=0, heavy=True), Job("c19", G[0], "two threads, tree sharing nodes with an older version", n=3, lo=1, grown=1, shapes=6, heavy=True), Job("c19", G[1] + " -DTREE=1", "two threads", n=4, lo=4, shape=2, weight=2), Job("c19", G[0], "three threads", n=1, ops=5, heavy=True)] +
    [Job("c19", G[0] + " -DTREE=%d" % t, "two threads", "t", n=5, shape=2, grown=1, heavy=True) for t in (0, 1, 2)] + [Job("c19", G[0], "three threads", "t", n=3, lo=2, ops=5, shape=0, heavy=True)],
    ["threads are explored under sequential consistency with a happens-before race detector over the C++ memory orders of the atomics; every interleaving of atomic operations up to partial-order equivalence"])
MIX5 = ["I,O,S,N,X", "X,N,S,O,I", "S,I,O,N,X", "O,X,I,N,S", "N,S,X,I,O"]
MIX2 = ["I,O", "O,I", "S,N", "N,S", "X,I", "I,X", "O,S", "S,O", "N,X", "X,N", "I,S", "S,I", "N,I", "I,N", "O,N", "O,X", "X,S", "S,X"]
prop("C20", LONGER + "; several instances of the same mixin in one tree", [Job("c20", G[0] + " -DMIX=%s" % m, "all five mixins", n=3, k=1, vb=1) for m in MIX5] + [Job("c20", G[0] + " -DMIX=%s" % m, "pairs of mixins", n=4, k=1, vb=1) for m in MIX2] +
    [Job("c20", G[0] + " -DMIX=%s" % m, "three mixins", n=5, k=1, vb=3) for m in ("S,I,O", "O,S,I")] +
    [Job("c20", g + " -DMIX=%s" % m, "all five mixins", "t", n=5, k=1, vb=1, heavy=True) for g in G[:2] for m in MIX5] + [Job("c20", G[0] + " -DMIX=%s" % m, "pairs of mixins", "t", n=6, k=1, vb=2, heavy=True) for m in MIX2])
prop("C21", "longer free histories than listed; other node geometries", [Job("c21", G[0], "insertions from n appended elements", era=0, n=18, free=3, heavy=True), Job("c21", G[0], "insertions from empty", era=0, n=0, free=7), Job("c21", G[2], "insertions", era=0, n=18, free=3, heavy=True), Job("c21", G[1], "insertions", era=0, n=0, free=7)] + [Job("c21", g, "fill of the nodes", era=0, n=n, free=2, weight=2) for g, n in ((G[3], 20), (G[4], 18))] + [Job("c21", G[4], "insertions from empty", era=0, n=0, free=7)] + [Job("c21", g + " -DTREE=1", "insertions by index", era=0, n=n, free=2, byindex=1, weight=2) for g, n in ((G[0], 14), (G[3], 20), (G[4], 18))] +
    [Job("c21", G[0], "every erasing order", era=1, n=7, free=7), Job("c21", G[0], "three free erasures", era=1, n=11, free=3), Job("c21", G[1], "three free erasures", era=1, n=11, free=3)] +
    [Job("c21", g, "insertions", "t", era=0, n=30, free=4, heavy=True) for g in G[:3]] + [Job("c21", g, "insertions from empty", "t", era=0, n=0, free=10, heavy=True) for g in G[:3]] + [Job("c21", g, "erasing orders", "t", era=1, n=9, free=9, heavy=True) for g in G[:3]] + [Job("c21", G[0], "free erasures in tall trees", "t", era=1, n=24, free=4, heavy=True)])
prop("C22", "depth limits above three; more free positions than listed", [Job("c22", G[0] + " -DDEPTH=1", free=2), Job("c22", G[0] + " -DDEPTH=2", free=2), Job("c22", G[1] + " -DDEPTH=2", free=2), Job("c22", G[0] + " -DDEPTH=2 -DTREE=2", free=2), Job("c22", G[0] + " -DDEPTH=3", free=1, heavy=True)] +
    [Job("c22", G[0] + " -DDEPTH=3", "", "t", free=2, heavy=True), Job("c22", G[2] + " -DDEPTH=2", "", "t", free=3, heavy=True), Job("c22", G[0] + " -DDEPTH=1", "", "t", free=4, heavy=True)])
prop("C23", LONGER, chains("c23", " -DELEM=Mv", n=3, k=1) + [Job("c23", G[0] + MV, "elements that a move changes", n=5, k=1)] + [Job("c23", G[0], "two handle operations", n=3, k=2, heavy=True), Job("c23", G[0], "two handle operations", n=6, k=2, shape=3, each=0), Job("c23", G[1], "two handle operations", n=4, k=2, each=0, heavy=True), Job("c23", G[0], "three handle operations", n=3, lo=3, k=3, each=0, last=0, shape=0, weight=2)] + trees("c23", G[0], "two handle operations", ts=(1, 2), n=2, k=2) +
    [Job("c23", G[0], "three handle operations", "t", n=4, k=3, each=0, heavy=True), Job("c23", G[1], "two handle operations", "t", n=9, k=2, heavy=True)])
prop("C24", "a new last term where the insertion reads past the end (the known finding); the persistent side and lookup by name, which do not compile; longer histories and larger indexes than listed; other node sizes; terms other than integers",
    [Job("c24", "", "every history of n postings", n=3, tbits=4, dbits=4), Job("c24", "", "every history of n postings", n=4, tbits=3, dbits=3), Job("c24", "", "every history of n postings", n=5, tbits=4, dbits=4, weight=2), Job("c24", "", "two postings into a larger index", n=2, pre=8, tbits=4, dbits=3), Job("c24", "", "three postings into a larger index", n=3, pre=10, tbits=4, dbits=3, heavy=True), Job("c24", "-DTERM=uint64_t", "64-bit terms", n=4, tbits=8, dbits=8)] +
    [Job("c24", "", "every history of n postings", "t", n=6, tbits=4, dbits=4, heavy=True), Job("c24", "", "four postings into a larger index", "t", n=4, pre=9, tbits=4, dbits=3, heavy=True), Job("c24", "-DTERM=uint64_t", "64-bit terms", "t", n=6, tbits=8, dbits=8, heavy=True)])
prop("C25", LONGER, chains("c25", " -DELEM=Mv", k=1) + [Job("c25", G[0] + MV, "elements that a move changes", n=6, k=1)] + trees("c25", G[0], "one edit or derivation of every tree up to n", n=8) + [Job("c25", g, "one edit or derivation of every tree up to n", n=12) for g in G[1:4]] + [Job("c25", G[0] + " -DCONCRETE_FILL", "larger trees", n=20, lo=11)] +
    [Job("c25", g, "larger trees", "t", n=24, heavy=True) for g in G] + trees("c25", G[1], "one edit", "t", n=16, heavy=True))
prop("C26", LONGER, [Job("c26", g, "every operation at every position, range or key", n=n) for g, n in ((G[0], 64), (G[0], 120), (G[4], 150), ("-DLN=7 -DIN=7", 160))] + [Job("c26", G[2] + " -DBINARY=true", "binary search within nodes", n=9), Job("c26", G[2], "small trees", n=12)] +
    [Job("c26", g, "larger trees", "t", n=n, heavy=True) for g, n in ((G[0], 200), (G[3], 300), ("-DLN=7 -DIN=7", 400))] + [Job("c26", g + " -DBINARY=true", "binary search within nodes", "t", n=20, heavy=True) for g in G[:3]])
prop("C27", "options not listed; alias types with other mixins; longer histories", [Job("c27", g + " -DWHAT=%d -DBPPTREE_DISABLE_EXCEPTIONS=%s" % (w, b), ("maps", "sets", "vectors")[w] + ", options in several orders", n=n) for g in (G[0],) for w, n in ((0, 9), (1, 7), (2, 9)) for b in ("true", "false")] + [Job("c27", "-DLN=3 -DIN=5 -DWHAT=%d -DBPPTREE_DISABLE_EXCEPTIONS=true" % w, "options in several orders", n=n) for w, n in ((0, 11), (1, 7), (2, 9))] +
    [Job("c27", g + " -DWHAT=%d -DBPPTREE_DISABLE_EXCEPTIONS=%s" % (w, b), ("maps", "sets", "vectors")[w] + ", options in several orders", "t", n=n, heavy=True) for g in (G[0], G[2]) for w, n in ((0, 14), (1, 9), (2, 12)) for b in ("true", "false")])
NOT_APPLICABLE = {}
