"""What each check runs: harnesses, bounds per tier, reach labels that must be hit."""
G = "any pollard grown with {MINN}..{MAXN} leaves (any of them remembered; at most {MAXK} or all but {MAXK} above {DENSE} leaves), {BLOCKS} block(s) with deletions and {CACHE} verified proof(s)"
GR = G + ", or restored from its roots on the way"
GS = "any pollard grown with {MINN}..{MAXN} leaves, or restored from its roots; remembered leaves and targets are sets repeating a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions"
HIST = "every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set and up to {ADDS} additions, arbitrary distinct leaf hashes"
DEEP = "pollards restored from roots of forests with 2^h, 2^h + 1, 2^h + 2^(h-1) and 2^h - 1 leaves, h in {HEIGHTS}, after {CACHE} verified leaf, known only around up to {MAXK} target leaves among the ends and the middle; arbitrary target hashes, and all, one more, one or two fewer arbitrary proof hashes"
DEEP15 = "pollards restored from roots of forests with 2^h, 2^h + 1, 2^h + 2^(h-1) and 2^h - 1 leaves, h in {HEIGHTS}, after {CACHE} verified leaf, known only around up to {MAXK} target leaves among the ends and the middle; honest proofs, with all hashes or without the held ones"
SETS = "repeating a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions"
SHAPED = "histories of {STEPS} block(s) from {MINN} to {MAXN} leaves, every target set (and choice of remembered leaves) " + SETS + ", up to {ADDS} additions, arbitrary distinct leaf hashes"
AGAIN = "every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set and up to {ADDS} additions, arbitrary distinct leaf hashes, any addition new or a leaf deleted before (in the same block, too)"
def again(prop, src, name="again", more="", **kw):
    q = dict(MAXN=4, STEPS=2, ADDS=1); q.update(kw.pop("quick", {}))
    t = dict(MAXN=5, STEPS=3, ADDS=2); t.update(kw.pop("thorough", {}))
    return dict(dict(name=name, desc=AGAIN + more, src=src, defs=dict(prop, MINN=0, DENSE=16, MAXK=2, AGAIN=1), quick=q, thorough=t, reach=["end", "again"]), **kw)
def runs(prop, src, name="runs", spots=False, more="", **kw):
    q, t = (dict(MINN=47, MAXN=49, RUN=1), dict(MINN=40, MAXN=65, RUN=2)) if spots else (dict(MINN=16, MAXN=17, RUN=64), dict(MINN=9, MAXN=34, RUN=64))
    q.update(kw.pop("quick", {})); t.update(kw.pop("thorough", {}))
    return dict(dict(name=name, desc="{MINN} to {MAXN} leaves, then a block that deletes any run of at most {RUN} neighbours (from RUN = 4 on also all but such a run)" + more, src=src, defs=dict(prop, STEPS=1, ADDS=0, DENSE=0, MAXK=0), quick=q, thorough=t, reach=["end"]), **kw)
def shaped(prop, src, name="shaped", wide=False, **kw):
    d = dict(DENSE=0, **prop)
    q, t = (dict(MINN=255, MAXN=257), dict(MINN=253, MAXN=260)) if wide else (dict(MINN=9, MAXN=24), dict(MINN=9, MAXN=40))
    q.update(SHAPED=7 if wide else 3, STEPS=1, MAXK=0, ADDS=1 if wide else 3)
    t.update(SHAPED=7 if wide else 4, STEPS=1, MAXK=0 if wide else 1, ADDS=2 if wide else 3)
    q.update(kw.pop("quick", {})); t.update(kw.pop("thorough", {}))
    return dict(dict(name=name, desc=SHAPED + kw.pop("more", ""), src=src, defs=d, quick=q, thorough=t, reach=["end"]), **kw)
CHECKS = {
    "C01": dict(
        bounds={"quick": "every leaf count 1..2^62, every row, every index of the row, every rise and drop (all symbolic)", "thorough": "the same"},
        jobs=[dict(name="numbering", src="c01.cpp", defs=dict(MAXROWS=62), reach=["inner", "children", "end"])]),
    "C02": dict(
        bounds={"quick": "single nodes, paths and roots: every leaf count 1..2^14; leaves, their roots and the forest root numbering: every leaf count 1..2^30; whole root lists: leaf counts 0..48 with every smaller count, and all counts up to 2^62 with at most 2 set bits",
                "thorough": "single roots, nodes and paths: every leaf count 1..2^62; whole root lists: leaf counts 0..160 with every smaller count, and all counts up to 2^62 with at most 3 set bits"},
        jobs=[dict(name="single", src="c02.cpp", defs=dict(MODE=0), quick=dict(MAXROWS=14), thorough=dict(MAXROWS=62), reach=["root", "end"]),
              dict(name="leaves", src="c02.cpp", defs=dict(MODE=0, MAXROW=0), quick=dict(MAXROWS=30), thorough=dict(MAXROWS=62), reach=["root", "end"]),
              dict(name="lists", src="c02.cpp", defs=dict(MODE=1), quick=dict(MAXN=48), thorough=dict(MAXN=160), reach=["end"]),
              dict(name="sparse", src="c02.cpp", defs=dict(MODE=2, MAXROWS=61), quick=dict(BITS=2), thorough=dict(BITS=3), reach=["end"])]),
    "C03": dict(
        jobs=[dict(name="symbolic", desc="every target list of up to {MAXK} leaves in every forest of up to 2^{MAXROWS} leaves (leaf count and targets symbolic)", src="c03.cpp", defs=dict(MODE=0), quick=dict(MAXROWS=6, MAXK=2), thorough=dict(MAXROWS=12, MAXK=2), reach=["end"]),
              dict(name="dense", desc="every target set for up to {DENSE} leaves; for up to {MAXN} leaves every set of at most {MAXK} leaves and its complement", src="c03.cpp", defs=dict(MODE=1), quick=dict(MAXN=32, DENSE=14, MAXK=3), thorough=dict(MAXN=64, DENSE=16, MAXK=3), reach=["end"]),
              dict(name="shaped", desc="for {MINN} to {MAXN} leaves every target set that repeats a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions", src="c03.cpp", defs=dict(MODE=1, DENSE=0), quick=dict(MINN=15, MAXN=50, SHAPED=3, MAXK=1), thorough=dict(MINN=15, MAXN=100, SHAPED=5, MAXK=1), reach=["end"]),
              dict(name="wide", desc="for {MINN} to {MAXN} leaves every target set that repeats a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions", src="c03.cpp", defs=dict(MODE=1, DENSE=0, SHAPED=7), quick=dict(MINN=509, MAXN=520, MAXK=0), thorough=dict(MINN=509, MAXN=520, MAXK=1), reach=["end"])]),
    "C04": dict(
        jobs=[dict(name="symbolic", desc="every target list of up to {MAXK} leaves in every forest of up to 2^{MAXROWS} leaves (leaf count and targets symbolic)", src="c04.cpp", defs=dict(MODE=0), quick=dict(MAXROWS=6, MAXK=2), thorough=dict(MAXROWS=12, MAXK=2), reach=["end"]),
              dict(name="dense", desc="every target set for up to {DENSE} leaves; for up to {MAXN} leaves every set of at most {MAXK} leaves and its complement", src="c04.cpp", defs=dict(MODE=1), quick=dict(MAXN=32, DENSE=14, MAXK=3), thorough=dict(MAXN=64, DENSE=16, MAXK=3), reach=["end"]),
              dict(name="shaped", desc="for {MINN} to {MAXN} leaves every target set that repeats a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions", src="c04.cpp", defs=dict(MODE=1, DENSE=0), quick=dict(MINN=15, MAXN=50, SHAPED=3, MAXK=1), thorough=dict(MINN=15, MAXN=100, SHAPED=5, MAXK=1), reach=["end"]),
              dict(name="wide", desc="for {MINN} to {MAXN} leaves every target set that repeats a pattern of 4 runs of 1 to 2^{SHAPED} leaves, with at most {MAXK} exceptions", src="c04.cpp", defs=dict(MODE=1, DENSE=0, SHAPED=7), quick=dict(MINN=509, MAXN=520, MAXK=0), thorough=dict(MINN=509, MAXN=520, MAXK=1), reach=["end"])]),
    "C05": dict(
        bounds={"quick": "target lists of up to 6 arbitrary 64-bit values against any 64-bit leaf count; proofs with up to 3 arbitrary targets and 4 hashes against 0..8 leaves",
                "thorough": "target lists of up to 12 arbitrary 64-bit values; proofs with up to 4 arbitrary targets and 8 hashes against 0..20 leaves"},
        jobs=[dict(name="targets", src="c05.cpp", defs=dict(MODE=0), quick=dict(MAXK=6), thorough=dict(MAXK=12), reach=["accepted", "refused"]),
              dict(name="proofs", src="c05.cpp", defs=dict(MODE=1), quick=dict(MAXK=3, MAXN=8, MAXH=4), thorough=dict(MAXK=4, MAXN=20, MAXH=8), reach=["accepted", "refused"])]),
    "C06": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes", src="forest.cpp", defs=dict(PROP=6), quick=dict(MAXN=6, STEPS=2, DENSE=16, MAXK=2, ADDS=3), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end"]),
              dict(name="big", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes", src="forest.cpp", defs=dict(PROP=6), quick=dict(MAXN=18, STEPS=1, DENSE=8, MAXK=2, ADDS=2), thorough=dict(MAXN=40, STEPS=2, DENSE=8, MAXK=2, ADDS=3), reach=["end"]),
              shaped(dict(PROP=6), "forest.cpp"),
              shaped(dict(PROP=6), "forest.cpp", "shaped2", quick=dict(STEPS=2, SHAPED=1, MINN=14, MAXN=17, ADDS=1), thorough=dict(STEPS=2, SHAPED=2, MINN=14, MAXN=20, MAXK=0)),
              shaped(dict(PROP=6), "forest.cpp", "wide", wide=True),
              runs(dict(PROP=6), "forest.cpp", quick=dict(MINN=9, MAXN=34), thorough=dict(MAXN=70))]),
    "C07": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes", src="forest.cpp", defs=dict(PROP=7), quick=dict(MAXN=6, STEPS=2, DENSE=16, MAXK=2, ADDS=3), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end"]),
              dict(name="big", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes", src="forest.cpp", defs=dict(PROP=7), quick=dict(MAXN=18, STEPS=1, DENSE=8, MAXK=2, ADDS=2), thorough=dict(MAXN=40, STEPS=2, DENSE=8, MAXK=2, ADDS=3), reach=["end"]),
              shaped(dict(PROP=7), "forest.cpp"),
              shaped(dict(PROP=7), "forest.cpp", "shaped2", quick=dict(STEPS=2, SHAPED=1, MINN=14, MAXN=17, ADDS=1), thorough=dict(STEPS=2, SHAPED=2, MINN=14, MAXN=20, MAXK=0)),
              shaped(dict(PROP=7), "forest.cpp", "wide", wide=True),
              again(dict(PROP=7), "forest.cpp", quick=dict(MAXN=5, ADDS=2), thorough=dict(MAXN=6)),
              runs(dict(PROP=7), "forest.cpp", quick=dict(MINN=9, MAXN=34), thorough=dict(MAXN=70))]),
    "C08": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, then every set of leaves requested in 3 orders plus one arbitrary 256-bit hash", src="forest.cpp", defs=dict(PROP=8), quick=dict(MAXN=5, STEPS=1, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end", "extra leaf", "no proof", "gone"]),
              dict(name="big", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, then every set of leaves requested in 3 orders plus one arbitrary 256-bit hash", src="forest.cpp", defs=dict(PROP=8), quick=dict(MAXN=18, STEPS=0, DENSE=4, MAXK=2, ADDS=2), thorough=dict(MAXN=40, STEPS=2, DENSE=8, MAXK=2, ADDS=3), reach=["end", "extra leaf", "no proof"]),
              shaped(dict(PROP=8), "forest.cpp", more="; then every such set of leaves requested in 2 orders plus one arbitrary 256-bit hash", quick=dict(STEPS=0, MINN=19, MAXN=40, ADDS=0), thorough=dict(STEPS=1, MINN=19, MAXN=40, SHAPED=2, ADDS=1, MAXK=0)),
              again(dict(PROP=8), "forest.cpp", more="; then every set of leaves requested in 3 orders plus one arbitrary 256-bit hash", quick=dict(MAXN=4), thorough=dict(MAXN=4))]),
    "C09": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, then 1..{STEPS} undos, with and without serialization", src="undo.cpp", defs=dict(MINN=0), quick=dict(MAXN=5, STEPS=2, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end"]),
              dict(name="after", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, then the undos and one more such block and its undo", src="undo.cpp", defs=dict(MINN=0, MORE=1), quick=dict(MAXN=5, STEPS=1, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end"]),
              dict(name="big", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, then 1..{STEPS} undos, with and without serialization", src="undo.cpp", defs=dict(MINN=0), quick=dict(MAXN=18, STEPS=1, DENSE=8, MAXK=2, ADDS=2), thorough=dict(MAXN=40, STEPS=2, DENSE=8, MAXK=2, ADDS=3), reach=["end"]),
              shaped(dict(), "undo.cpp"),
              shaped(dict(), "undo.cpp", "shaped2", quick=dict(STEPS=2, SHAPED=1, MINN=15, MAXN=16, ADDS=1), thorough=dict(STEPS=2, SHAPED=2, MINN=14, MAXN=20, MAXK=0)),
              shaped(dict(), "undo.cpp", "wide", wide=True, quick=dict(MINN=256, SHAPED=3)),
              again(dict(MORE=1), "undo.cpp", more=", then the undos and one more such block and its undo", quick=dict(MAXN=3), thorough=dict(MAXN=4)),
              runs(dict(), "undo.cpp", quick=dict(MINN=9, MAXN=20))]),
    "C10": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, the file closed, committed or neither before each block, then reopened and any number of blocks undone", src="file.cpp", defs=dict(MINN=0), quick=dict(MAXN=4, STEPS=2, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end", "reopened", "undone"]),
              dict(name="after", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, the file closed, committed or neither before each block, then reopened, any number of blocks undone and one more such block", src="file.cpp", defs=dict(MINN=0, MORE=1), quick=dict(MAXN=4, STEPS=1, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, DENSE=16, MAXK=2, ADDS=3), reach=["end", "reopened", "undone"]),
              dict(name="big", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, the file closed, committed or neither before each block, then reopened and any number of blocks undone", src="file.cpp", defs=dict(MINN=0), quick=dict(MAXN=18, STEPS=1, DENSE=8, MAXK=2, ADDS=2), thorough=dict(MAXN=40, STEPS=2, DENSE=8, MAXK=2, ADDS=3), reach=["end"]),
              shaped(dict(MORE=1), "file.cpp", quick=dict(MINN=13, MAXN=14, SHAPED=1, ADDS=1)),
              shaped(dict(), "file.cpp", "wide", wide=True, quick=dict(MINN=257, SHAPED=2)),
              again(dict(), "file.cpp", more=", the file closed, committed or neither before each block, then reopened and any number of blocks undone")]),
    "C11": dict(
        jobs=[dict(name="fresh", desc="up to {MAXN} leaves, each remembered or not, and every list of up to {BAD} arbitrary 64-bit targets that is not sane", src="refuse.cpp", quick=dict(MAXN=5, BAD=2), thorough=dict(MAXN=8, BAD=3), reach=["end"]),
              dict(name="later", desc="the same for up to {MAXN} leaves and after one block with deletions, lists of up to {BAD} targets", src="refuse.cpp", defs=dict(BEFORE=1), quick=dict(MAXN=3, BAD=2, DENSE=8, MAXK=2), thorough=dict(MAXN=7, BAD=3, DENSE=8, MAXK=2), reach=["end"])]),
    "C12": dict(
        jobs=[dict(name="fresh", desc="up to {MAXN} leaves, each remembered or not, in every split into batches", src="split.cpp", defs=dict(MINN=0), quick=dict(MAXN=8), thorough=dict(MAXN=9), reach=["end", "remembered"]),
              dict(name="big", desc="{MINN} to {MAXN} leaves, at most one remembered, added at once or in two parts, the second in one batch or one by one", src="split.cpp", defs=dict(RUN=1), quick=dict(MINN=9, MAXN=24), thorough=dict(MINN=9, MAXN=70), reach=["end", "remembered"]),
              dict(name="later", desc="up to {MAXN} leaves in every split, added after up to {BEFORE} leaves and one block of deletions", src="split.cpp", defs=dict(MINN=1), quick=dict(MAXN=4, BEFORE=4), thorough=dict(MAXN=6, BEFORE=6), reach=["end"])]),
    "C13": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, every choice of remembered leaves; before each block the pollard verifies all targets or only those it does not remember", src="pollard.cpp", defs=dict(PROP=13, MINN=0, EXTRA=0, TRUSTED=1), quick=dict(MAXN=5, STEPS=2, DENSE=16, MAXK=2, ADDS=1), thorough=dict(MAXN=6, STEPS=3, DENSE=16, MAXK=2, ADDS=2), reach=["end", "remembered target"]),
              dict(name="extra", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, every choice of remembered leaves; before each block the pollard may verify any further set of leaves, then verifies all targets or only those it does not remember", src="pollard.cpp", defs=dict(PROP=13, MINN=0, EXTRA=1, TRUSTED=1), quick=dict(MAXN=4, STEPS=1, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=8, STEPS=2, DENSE=16, MAXK=2, ADDS=2), reach=["end", "remembered target"]),
              shaped(dict(PROP=13, EXTRA=0, TRUSTED=1), "pollard.cpp", quick=dict(MINN=7, MAXN=13, SHAPED=2, ADDS=1), thorough=dict(MINN=7, MAXN=20, ADDS=1)),
              shaped(dict(PROP=13, EXTRA=0, TRUSTED=1), "pollard.cpp", "wide", wide=True, quick=dict(MINN=257, SHAPED=0, ADDS=0), thorough=dict(ADDS=0, MAXK=0, SHAPED=3)),
              again(dict(PROP=13, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", every choice of remembered leaves", quick=dict(MAXN=3), thorough=dict(MAXN=5, STEPS=2)),
              runs(dict(PROP=13, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember"),
              runs(dict(PROP=13, EXTRA=0, TRUSTED=1), "pollard.cpp", "spots", spots=True, more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember")]),
    "C17": dict(
        jobs=[dict(name="history", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, every choice of remembered leaves; before each block the pollard verifies all targets or only those it does not remember", src="pollard.cpp", defs=dict(PROP=17, MINN=0, EXTRA=0, TRUSTED=1), quick=dict(MAXN=5, STEPS=2, DENSE=16, MAXK=2, ADDS=1), thorough=dict(MAXN=6, STEPS=3, DENSE=16, MAXK=2, ADDS=2), reach=["end", "remembered target", "proved"]),
              dict(name="extra", desc="every history of {STEPS} blocks from up to {MAXN} leaves, each block with any target set (at most {MAXK} leaves or non-leaves above {DENSE} leaves) and up to {ADDS} additions, arbitrary distinct leaf hashes, every choice of remembered leaves; before each block the pollard may verify any further set of leaves, then verifies all targets or only those it does not remember", src="pollard.cpp", defs=dict(PROP=17, MINN=0, EXTRA=1, TRUSTED=1), quick=dict(MAXN=4, STEPS=1, DENSE=16, MAXK=2, ADDS=2), thorough=dict(MAXN=8, STEPS=2, DENSE=16, MAXK=2, ADDS=2), reach=["end", "remembered target", "proved"]),
              shaped(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", quick=dict(MINN=7, MAXN=13, SHAPED=2, ADDS=1), thorough=dict(MINN=7, MAXN=20, ADDS=1)),
              shaped(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", "wide", wide=True, quick=dict(MINN=257, SHAPED=0, ADDS=0), thorough=dict(ADDS=0, MAXK=0, SHAPED=3)),
              again(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", every choice of remembered leaves", quick=dict(MAXN=3), thorough=dict(MAXN=5, STEPS=2)),
              runs(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember"),
              runs(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", "spots", spots=True, more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember")]),
    "C28": dict(
        jobs=[dict(name="history", desc=HIST + ", every choice of remembered leaves; before each block the pollard verifies all targets or only those it does not remember", src="pollard.cpp", defs=dict(PROP=28, MINN=0, EXTRA=0, TRUSTED=1, DENSE=16, MAXK=2), quick=dict(MAXN=5, STEPS=2, ADDS=1), thorough=dict(MAXN=6, STEPS=3, ADDS=2), reach=["end", "some", "none", "remembered target"]),
              dict(name="extra", desc=HIST + ", every choice of remembered leaves; before each block the pollard may verify any further set of leaves", src="pollard.cpp", defs=dict(PROP=28, MINN=0, EXTRA=1, TRUSTED=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, STEPS=1, ADDS=2), thorough=dict(MAXN=8, STEPS=2, ADDS=2), reach=["end", "some", "none"]),
              shaped(dict(PROP=28, EXTRA=0, TRUSTED=1), "pollard.cpp", quick=dict(MINN=7, MAXN=13, SHAPED=2, ADDS=1), thorough=dict(MINN=7, MAXN=20, ADDS=1)),
              shaped(dict(PROP=28, EXTRA=0, TRUSTED=1), "pollard.cpp", "wide", wide=True, quick=dict(MINN=257, SHAPED=0, ADDS=0), thorough=dict(ADDS=0, MAXK=0, SHAPED=3)),
              again(dict(PROP=28, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", every choice of remembered leaves", quick=dict(MAXN=3), thorough=dict(MAXN=5, STEPS=2)),
              runs(dict(PROP=28, EXTRA=0, TRUSTED=1), "pollard.cpp", more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember"),
              runs(dict(PROP=28, EXTRA=0, TRUSTED=1), "pollard.cpp", "spots", spots=True, more=", at most one leaf remembered; the pollard verifies all targets or only those it does not remember")]),
    "C29": dict(
        jobs=[dict(name="history", desc=HIST + ", every choice of remembered leaves", src="block.cpp", defs=dict(PROP=29, MINN=0, DENSE=16, MAXK=2), quick=dict(MAXN=4, STEPS=1, ADDS=2), thorough=dict(MAXN=5, STEPS=2, ADDS=2), reach=["end"]),
              shaped(dict(PROP=29), "block.cpp", quick=dict(MINN=7, MAXN=12, SHAPED=1, ADDS=1), thorough=dict(MINN=7, MAXN=20, ADDS=1))]),
    "C30": dict(
        jobs=[dict(name="history", desc=HIST, src="block.cpp", defs=dict(PROP=30, MINN=0, DENSE=16, MAXK=2), quick=dict(MAXN=6, STEPS=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, ADDS=3), reach=["end"]),
              shaped(dict(PROP=30), "block.cpp"),
              shaped(dict(PROP=30), "block.cpp", "wide", wide=True),
              again(dict(PROP=30), "block.cpp", quick=dict(MAXN=5, ADDS=2), thorough=dict(MAXN=6))]),
    "C14": dict(
        jobs=[dict(name="small", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary, target hash count right or off by one", src="verify.cpp", defs=dict(PROP=14, COUNTS=1, MINN=0, RESTORED=1, BLOCKS=0, CACHE=0, DENSE=16, MAXK=2), quick=dict(MAXN=5), thorough=dict(MAXN=7), reach=["accepted", "refused", "end"]),
              dict(name="later", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=14, MINN=0, RESTORED=1, BLOCKS=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, CACHE=0), thorough=dict(MAXN=4, CACHE=1), reach=["accepted", "refused", "end"]),
              dict(name="big", desc=GR + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=14, RESTORED=1, BLOCKS=0, DENSE=4, MAXK=1), quick=dict(MINN=6, MAXN=12, CACHE=0), thorough=dict(MINN=6, MAXN=17, CACHE=1), reach=["accepted", "refused", "end"]),
              dict(name="deep", desc=DEEP, src="deep.cpp", defs=dict(PROP=14), quick=dict(HEIGHTS="1,5,20,33,45,61", MAXK=2, CACHE=0), thorough=dict(HEIGHTS="1,3,5,8,20,32,33,45,61", MAXK=3, CACHE=0), reach=["accepted", "refused", "end"]),
              dict(name="cached", desc=DEEP, src="deep.cpp", defs=dict(PROP=14), quick=dict(HEIGHTS="3,8", MAXK=2, CACHE=1), thorough=dict(HEIGHTS="3,8,12", MAXK=2, CACHE=2), reach=["accepted", "refused", "end"]),
              dict(name="shaped", desc=GS + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=14, RESTORED=1, BLOCKS=0, DENSE=0, MAXK=0, CACHE=0), quick=dict(MINN=6, MAXN=12, SHAPED=1), thorough=dict(MINN=6, MAXN=16, SHAPED=2), reach=["end"])]),
    "C15": dict(
        jobs=[dict(name="small", desc=GR + "; honest proofs of any target set in both orders, any held hashes left out", src="verify.cpp", defs=dict(PROP=15, MINN=0, RESTORED=1, BLOCKS=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, CACHE=0), thorough=dict(MAXN=5, CACHE=1), reach=["omitted", "end"]),
              dict(name="big", desc=GR + "; honest proofs of any such target set in both orders, any held hashes left out", src="verify.cpp", defs=dict(PROP=15, RESTORED=1, BLOCKS=0, CACHE=1, DENSE=4, MAXK=1), quick=dict(MINN=6, MAXN=9), thorough=dict(MINN=6, MAXN=17), reach=["omitted", "end"]),
              dict(name="deep", desc=DEEP15, src="deep.cpp", defs=dict(PROP=15), quick=dict(HEIGHTS="2,8,33,61", MAXK=2, CACHE=1), thorough=dict(HEIGHTS="1,2,3,8,12,20,32,33,45,61", MAXK=3, CACHE=2), reach=["omitted", "end"]),
              dict(name="shaped", desc=GS + "; honest proofs of any such target set in both orders, any held hashes left out", src="verify.cpp", defs=dict(PROP=15, RESTORED=1, BLOCKS=0, DENSE=0, MAXK=0, CACHE=0), quick=dict(MINN=6, MAXN=12, SHAPED=1), thorough=dict(MINN=6, MAXN=16, SHAPED=2), reach=["end"])]),
    "C16": dict(
        jobs=[dict(name="small", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary, then an honest proof and a block compared with a pollard that never saw the proof", src="verify.cpp", defs=dict(PROP=16, GOON=1, MINN=0, RESTORED=1, DENSE=16, MAXK=2, CACHE=0), quick=dict(MAXN=3, BLOCKS=0), thorough=dict(MAXN=5, BLOCKS=0), reach=["accepted", "refused", "end"]),
              dict(name="later", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary, then an honest proof and a block compared with a pollard that never saw the proof", src="verify.cpp", defs=dict(PROP=16, GOON=1, MINN=0, RESTORED=1, DENSE=16, MAXK=2, CACHE=0, BLOCKS=1), quick=dict(MAXN=2), thorough=dict(MAXN=4), reach=["accepted", "refused", "end"]),
              dict(name="counts", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary, target hash count right or off by one; the pollard compared with one that never saw the proof", src="verify.cpp", defs=dict(PROP=16, GOON=0, COUNTS=1, MINN=0, RESTORED=1, DENSE=16, MAXK=2), quick=dict(MAXN=3, BLOCKS=1, CACHE=1), thorough=dict(MAXN=4, BLOCKS=1, CACHE=1), reach=["accepted", "refused", "end"]),
              dict(name="big", desc=GR + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary; the pollard compared with one that never saw the proof", src="verify.cpp", defs=dict(PROP=16, RESTORED=1, BLOCKS=0, DENSE=4, MAXK=1), quick=dict(MINN=6, MAXN=10, GOON=0, CACHE=0), thorough=dict(MINN=6, MAXN=11, GOON=1, CACHE=0), reach=["accepted", "refused", "end"]),
              dict(name="deep", desc=DEEP, src="deep.cpp", defs=dict(PROP=16), quick=dict(HEIGHTS="3,6", MAXK=2, CACHE=1), thorough=dict(HEIGHTS="3,6,10", MAXK=2, CACHE=2), reach=["refused", "end"]),
              dict(name="shaped", desc=GS + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary; the pollard compared with one that never saw the proof", src="verify.cpp", defs=dict(PROP=16, GOON=0, RESTORED=1, BLOCKS=0, DENSE=0, MAXK=0, CACHE=0), quick=dict(MINN=6, MAXN=9, SHAPED=1), thorough=dict(MINN=6, MAXN=16, SHAPED=2), reach=["end"])]),
    "C18": dict(
        jobs=[dict(name="wrong", desc=G + "; pruned, then {STEPS} step(s), each an honest proof or one with one hash replaced, and a block, next to a restored pollard", src="verify.cpp", defs=dict(PROP=18, WRONG=1, MINN=0, RESTORED=0, DENSE=16, MAXK=2, STEPS=1), quick=dict(MAXN=4, BLOCKS=0, CACHE=1), thorough=dict(MAXN=5, BLOCKS=1, CACHE=1), reach=["proved", "wrong proof", "end"]),
              dict(name="later", desc=G + "; pruned, then {STEPS} step(s), each an honest proof and a block, next to a restored pollard", src="verify.cpp", defs=dict(PROP=18, WRONG=0, MINN=0, RESTORED=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, BLOCKS=1, CACHE=0, STEPS=2), thorough=dict(MAXN=5, BLOCKS=1, CACHE=0, STEPS=3), reach=["proved", "end"]),
              dict(name="big", desc=G + "; pruned, then {STEPS} step(s), each an honest proof and a block, next to a restored pollard", src="verify.cpp", defs=dict(PROP=18, WRONG=0, RESTORED=0, BLOCKS=0, CACHE=0, DENSE=4, MAXK=1), quick=dict(MINN=5, MAXN=10, STEPS=1), thorough=dict(MINN=5, MAXN=18, STEPS=2), reach=["proved", "end"])]),
    "C19": dict(
        jobs=[dict(name="wrong", desc=G + "; restored, then {STEPS} step(s), each an honest proof or one with one hash replaced, and a block, next to the original and the forest", src="verify.cpp", defs=dict(PROP=19, WRONG=1, MINN=0, RESTORED=0, DENSE=16, MAXK=2, STEPS=1), quick=dict(MAXN=4, BLOCKS=0, CACHE=1), thorough=dict(MAXN=5, BLOCKS=1, CACHE=1), reach=["proved", "wrong proof", "end"]),
              dict(name="later", desc=G + "; restored, then {STEPS} step(s), each an honest proof and a block, next to the original and the forest", src="verify.cpp", defs=dict(PROP=19, WRONG=0, MINN=0, RESTORED=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, BLOCKS=1, CACHE=0, STEPS=2), thorough=dict(MAXN=5, BLOCKS=1, CACHE=0, STEPS=3), reach=["proved", "end"]),
              dict(name="big", desc=G + "; restored, then {STEPS} step(s), each an honest proof and a block, next to the original and the forest", src="verify.cpp", defs=dict(PROP=19, WRONG=0, RESTORED=0, BLOCKS=0, CACHE=0, DENSE=4, MAXK=1), quick=dict(MINN=5, MAXN=10, STEPS=1), thorough=dict(MINN=5, MAXN=18, STEPS=2), reach=["proved", "end"]),
              dict(name="deep", desc=DEEP15, src="deep.cpp", defs=dict(PROP=15), quick=dict(HEIGHTS="3,20,45", MAXK=2, CACHE=0), thorough=dict(HEIGHTS="1,2,3,8,12,20,32,33,45,61", MAXK=3, CACHE=1), reach=["end"])]),
    "C20": dict(
        jobs=[dict(name="proofs", desc=GR + "; up to {MAXT} arbitrary 64-bit targets in any order, up to {MAXH} arbitrary proof hashes, target hash count right or off by one", src="verify.cpp", defs=dict(PROP=20, BYTES=0, MINN=0, RESTORED=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, MAXT=3, MAXH=2, BLOCKS=0, CACHE=0), thorough=dict(MAXN=4, MAXT=3, MAXH=4, BLOCKS=1, CACHE=0), reach=["accepted", "refused", "end"]),
              dict(name="bytes", desc=GR + "; proofs decoded from every byte string up to {MAXLEN} bytes with up to {MAXT} targets", src="verify.cpp", defs=dict(PROP=20, BYTES=1, MINN=0, RESTORED=1), quick=dict(MAXN=4, MAXT=3, MAXLEN=84, BLOCKS=0, CACHE=0, DENSE=1, MAXK=1), thorough=dict(MAXN=5, MAXT=4, MAXLEN=120, BLOCKS=0, CACHE=0, DENSE=1, MAXK=1), reach=["decoded", "accepted", "refused", "end"]),
              dict(name="deep", desc=DEEP, src="deep.cpp", defs=dict(PROP=20), quick=dict(HEIGHTS="1,2,3,4", MAXK=1, CACHE=1), thorough=dict(HEIGHTS="1,2,3,4,8", MAXK=1, CACHE=1), reach=["refused", "end"])]),
    "C27": dict(
        jobs=[dict(name="pollard", desc=HIST + ", every choice of remembered leaves, extra proofs verified before blocks, remembered leaves deleted without verification; all internal checks of the verification build on", verify=True, src="pollard.cpp", defs=dict(PROP=17, MINN=0, EXTRA=1, TRUSTED=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, STEPS=1, ADDS=1), thorough=dict(MAXN=5, STEPS=2, ADDS=2), reach=["end"]),
              dict(name="undo", desc=HIST + ", undone and followed by one more block; all internal checks of the verification build on", verify=True, src="undo.cpp", defs=dict(MINN=0, MORE=1, DENSE=16, MAXK=2), quick=dict(MAXN=5, STEPS=1, ADDS=2), thorough=dict(MAXN=7, STEPS=3, ADDS=2), reach=["end"]),
              dict(name="file", desc=HIST + ", the file closed or committed in between, blocks undone and one more added; all internal checks of the verification build on", verify=True, src="file.cpp", defs=dict(MINN=0, MORE=1, DENSE=16, MAXK=2), quick=dict(MAXN=4, STEPS=1, ADDS=2), thorough=dict(MAXN=6, STEPS=3, ADDS=2), reach=["end", "undone", "reopened"]),
              dict(name="failed", desc=GR + "; arbitrary proofs, then honest ones and a block; all internal checks of the verification build on", verify=True, src="verify.cpp", defs=dict(PROP=16, GOON=1, MINN=0, RESTORED=1, CACHE=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, BLOCKS=0), thorough=dict(MAXN=4, BLOCKS=1), reach=["accepted", "refused", "end"]),
              dict(name="prune", desc=G + "; pruned, then {STEPS} step(s) of proof and block; all internal checks of the verification build on", verify=True, src="verify.cpp", defs=dict(PROP=18, WRONG=0, MINN=0, RESTORED=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, BLOCKS=1, CACHE=1, STEPS=1), thorough=dict(MAXN=4, BLOCKS=1, CACHE=1, STEPS=2), reach=["end"]),
              shaped(dict(PROP=17, EXTRA=0, TRUSTED=1), "pollard.cpp", verify=True, more="; all internal checks of the verification build on", quick=dict(MINN=7, MAXN=10, SHAPED=1, ADDS=1), thorough=dict(MINN=7, MAXN=16, SHAPED=3, ADDS=1)),
              shaped(dict(MORE=1), "undo.cpp", "shapedundo", verify=True, more=", undone and followed by one more such block; all internal checks of the verification build on", quick=dict(MINN=11, MAXN=16, SHAPED=1, ADDS=1), thorough=dict(SHAPED=2, ADDS=2, MAXK=0))]),
    "C21": dict(
        bounds={"quick": "every byte string up to 80 bytes, except those with more than 3 targets not in ascending order, into objects holding up to 1 target and hash; every proof with up to 4 targets below 2^32 and 2 hashes; proofs with 127..257 targets and hashes and with 65536, 65537 targets or hashes, some of them arbitrary",
                "thorough": "every byte string up to 140 bytes, except those with more than 5 targets not in ascending order; every proof with up to 6 targets and 4 hashes"},
        jobs=[dict(name="decode", src="c21.cpp", defs=dict(MODE=0), quick=dict(MAXLEN=80, OLD=1, ANY=3), thorough=dict(MAXLEN=140, OLD=2, ANY=5), reach=["decoded", "refused"]),
              dict(name="roundtrip", src="c21.cpp", defs=dict(MODE=1), quick=dict(MAXK=4, NH=2, OLD=2), thorough=dict(MAXK=6, NH=4, OLD=2), reach=["end"]),
              dict(name="many", desc="round trips of proofs with {SIZES} targets and hashes, every 16th arbitrary; truncated and extended by a byte", src="c21.cpp", defs=dict(MODE=2, BOTH=1, STEP=101, FREE=16, OLD=1), quick=dict(SIZES="0,127,128,255,256,257"), thorough=dict(SIZES="0,127,128,255,256,257,1000,4095,4096"), reach=["end"]),
              dict(name="huge", desc="round trips of proofs with {SIZES} targets or hashes, every 4096th arbitrary; truncated and extended by a byte", src="c21.cpp", defs=dict(MODE=2, BOTH=0, STEP=101, FREE=4096, OLD=0), quick=dict(SIZES="1,65536,65537"), thorough=dict(SIZES="1,32768,65535,65536,65537,100000"), reach=["end"])]),
    "C22": dict(
        bounds={"quick": "every byte string up to 120 bytes into objects holding up to 2 deletions; every undo record with up to 4 deletions; records of 127..257 and 65535..65537 deletions, some of them arbitrary",
                "thorough": "every byte string up to 200 bytes; every undo record with up to 8 deletions"},
        jobs=[dict(name="decode", src="c22.cpp", defs=dict(MODE=0), quick=dict(MAXLEN=120, OLD=2), thorough=dict(MAXLEN=200, OLD=2), reach=["decoded", "refused"]),
              dict(name="roundtrip", src="c22.cpp", defs=dict(MODE=1), quick=dict(MAXK=4, OLD=2), thorough=dict(MAXK=8, OLD=3), reach=["end"]),
              dict(name="many", desc="round trips of undo data with {SIZES} deletions, every 16th arbitrary; truncated and extended by a byte", src="c22.cpp", defs=dict(MODE=2, FREE=16, OLD=1), quick=dict(SIZES="127,128,255,256,257"), thorough=dict(SIZES="127,128,255,256,257,1000,4095,4096"), reach=["end"]),
              dict(name="huge", desc="round trips of undo data with {SIZES} deletions, every 4096th arbitrary; truncated and extended by a byte", src="c22.cpp", defs=dict(MODE=2, FREE=4096, OLD=0), quick=dict(SIZES="65535,65536,65537"), thorough=dict(SIZES="32768,65535,65536,65537,100000"), reach=["end"])]),
    "C23": dict(
        jobs=[dict(name="tree", desc="every inner node of forests and pollards of 2..{MAXN} leaves with arbitrary distinct leaf hashes (256 free bits each), after adding, verifying and deleting a leaf, against the FIPS 180-4 definition", src="sha.cpp", defs=dict(MODE=0), quick=dict(MAXN=4), thorough=dict(MAXN=4), opts=["--no-hash"], reach=["added", "verified", "deleted"])]),
    "C24": dict(
        jobs=[dict(name="sha512", desc="every message of {LO}..{HI} bytes against the FIPS 180-4 definition of SHA-512", src="sha.cpp", defs=dict(MODE=1, CUTS=0), quick=dict(LO=0, HI=132), thorough=dict(LO=0, HI=520), opts=["--no-hash"], reach=["digest"]),
              dict(name="long", desc="every message of {LO}..{HI} bytes against the FIPS 180-4 definition of SHA-512", src="sha.cpp", defs=dict(MODE=1, CUTS=0), quick=dict(LO=238, HI=241), thorough=dict(LO=1010, HI=1040), opts=["--no-hash"], reach=["digest"]),
              dict(name="anylength", desc="messages of any length below 2^60 bytes (any number of whole blocks compressed to any state): tails of {TAILS} bytes, then a write of {LASTS} bytes, against the FIPS 180-4 definition", src="sha.cpp", defs=dict(MODE=3), quick=dict(TAILS="0,1,15,16,63,110,111,112,120,127", LASTS="0,1,16,17,128"), thorough=dict(TAILS=",".join(map(str, range(128))), LASTS="0,1,16,17,111,112,127,128,129,255,256"), opts=["--no-hash"]),
              dict(name="sha512_256", desc="every message of {LO}..{HI} bytes against the FIPS 180-4 definition of SHA-512/256", src="sha.cpp", defs=dict(MODE=1, CUTS=0, VARIANT256=1), quick=dict(LO=0, HI=130), thorough=dict(LO=0, HI=520), opts=["--no-hash"], reach=["digest"]),
              dict(name="splits3", desc="every message of {LO}..{HI} bytes in every split into {CUTS} + 1 writes", src="sha.cpp", defs=dict(MODE=2, CUTS=2), quick=dict(LO=0, HI=16), thorough=dict(LO=0, HI=48), opts=["--no-hash"], reach=["digest"]),
              dict(name="splits", desc="every message of {LO}..{HI} bytes in every split into {CUTS} + 1 writes", src="sha.cpp", defs=dict(MODE=2, CUTS=1), quick=dict(LO=111, HI=112), thorough=dict(LO=0, HI=300), opts=["--no-hash"], reach=["digest"]),
              dict(name="splitsblock", desc="every message of {LO}..{HI} bytes in every split into {CUTS} + 1 writes", src="sha.cpp", defs=dict(MODE=2, CUTS=1), quick=dict(LO=127, HI=128), thorough=dict(LO=380, HI=390), opts=["--no-hash"], reach=["digest"]),
              dict(name="splitsblock2", desc="every message of {LO}..{HI} bytes in every split into {CUTS} + 1 writes", src="sha.cpp", defs=dict(MODE=2, CUTS=1, VARIANT256=1), quick=dict(LO=256, HI=256), thorough=dict(LO=250, HI=262), opts=["--no-hash"], reach=["digest"]),
              dict(name="splitsgrid", desc="every message of {LO}..{HI} bytes in every split into {CUTS} + 1 writes at multiples of {CUTSTEP} bytes", src="sha.cpp", defs=dict(MODE=2), quick=dict(LO=384, HI=385, CUTS=3, CUTSTEP=64), thorough=dict(LO=384, HI=385, CUTS=4, CUTSTEP=32), opts=["--no-hash"], reach=["digest"]),
              dict(name="reset", desc="every message of {LO}..{HI} bytes in two writes after a reset that follows up to {RESET} other bytes, finalized or not", src="sha.cpp", defs=dict(MODE=2, CUTS=1), quick=dict(LO=0, HI=1, RESET=130), thorough=dict(LO=0, HI=8, RESET=260), opts=["--no-hash"], reach=["digest"]),
              dict(name="reset256", desc="every message of {LO}..{HI} bytes against SHA-512 after a reset of a SHA-512/256 hasher that follows up to {RESET} other bytes, finalized or not", src="sha.cpp", defs=dict(MODE=1, CUTS=0, VARIANT256=1), quick=dict(LO=1, HI=2, RESET=2), thorough=dict(LO=0, HI=4, RESET=130), opts=["--no-hash"], reach=["digest"])]),
    "C25": dict(
        bounds="every value, every byte offset 0..8 of a 24-byte memory with arbitrary contents; every 64-bit argument of the bit length",
        jobs=[dict(name="helpers", src="c25.cpp", reach=["end", "bits"])]),
    "C26": dict(
        jobs=[dict(name="lookup", desc="two accumulators (forest and pollard each), each built from up to {MAXN} leaves of a common pool of {MAXN} in any order, any of them remembered, and optionally one deleted", src="compare.cpp", defs=dict(MODE=0), quick=dict(MAXN=3, DELETE=1), thorough=dict(MAXN=4, DELETE=1), reach=["agree", "differ", "equal"]),
              dict(name="records", desc="two proofs and two undo records with up to {MAXK} arbitrary targets and {MAXH} arbitrary hashes each", src="compare.cpp", defs=dict(MODE=1), quick=dict(MAXK=3, MAXH=2), thorough=dict(MAXK=4, MAXH=4), reach=["equal", "different", "equal undo", "different undo"])]),
    "C31": dict(
        jobs=[dict(name="small", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary, then an honest proof and a block", src="verify.cpp", defs=dict(PROP=31, GOON=1, MINN=0, RESTORED=1, BLOCKS=0, CACHE=0, DENSE=16, MAXK=2), quick=dict(MAXN=4), thorough=dict(MAXN=5), reach=["accepted", "refused", "end"]),
              dict(name="later", desc=GR + "; any target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=31, GOON=0, MINN=0, RESTORED=1, BLOCKS=1, DENSE=16, MAXK=2), quick=dict(MAXN=3, CACHE=1), thorough=dict(MAXN=5, CACHE=1), reach=["accepted", "refused", "end"]),
              dict(name="big", desc=GR + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=31, GOON=0, RESTORED=1, BLOCKS=0, DENSE=4, MAXK=1), quick=dict(MINN=5, MAXN=10, CACHE=0), thorough=dict(MINN=5, MAXN=12, CACHE=1), reach=["accepted", "refused", "end"]),
              dict(name="shaped", desc=GS + "; any such target set, 0 to all needed proof hashes, all hashes arbitrary", src="verify.cpp", defs=dict(PROP=31, GOON=0, RESTORED=1, BLOCKS=0, DENSE=0, MAXK=0, CACHE=0), quick=dict(MINN=6, MAXN=10, SHAPED=1), thorough=dict(MINN=6, MAXN=16, SHAPED=2), reach=["accepted", "refused", "end"]),
              dict(name="deep", desc=DEEP, src="deep.cpp", defs=dict(PROP=31), quick=dict(HEIGHTS="3,6", MAXK=2, CACHE=1), thorough=dict(HEIGHTS="1,2,3,6,8", MAXK=2, CACHE=1), reach=["accepted", "refused", "end"])]),
    "C32": dict(
        jobs=[dict(name="history", desc="every history of up to {STEPS} blocks from up to {MAXN} leaves with any target set and up to {ADDS} additions, each block followed by a commit or not, then the process ends without closing the file", src="crash.cpp", defs=dict(MINN=0, DENSE=16, MAXK=2, FULL=0), quick=dict(MAXN=5, STEPS=2, ADDS=2), thorough=dict(MAXN=7, STEPS=3, ADDS=2), reach=["committed", "modified since", "end"]),
              dict(name="full", desc="the same for files that can hold any given number of bytes", src="crash.cpp", defs=dict(MINN=0, DENSE=16, MAXK=2, FULL=1), quick=dict(MAXN=5, STEPS=1, ADDS=2), thorough=dict(MAXN=7, STEPS=2, ADDS=2), reach=["committed", "modified since", "full", "end"]),
              shaped(dict(FULL=1), "crash.cpp", more=", each block followed by a commit or not, files that can hold any number of bytes, then the process ends without closing the file")]),
    "C33": dict(
        jobs=[dict(name="bytes", desc="every file content of {MINLEN} to {MAXLEN} bytes", src="damaged.cpp", quick=dict(MINLEN=0, MAXLEN=140), thorough=dict(MINLEN=0, MAXLEN=240), reach=["whole", "damaged", "end"])]),
    "C34": dict(
        jobs=[dict(name="history", desc=HIST + ", every choice of remembered leaves, before each block any target set and one arbitrary 256-bit hash asked for", src="queries.cpp", defs=dict(MINN=0, DENSE=16, MAXK=2), quick=dict(MAXN=4, STEPS=1, ADDS=2), thorough=dict(MAXN=5, STEPS=2, ADDS=1), reach=["end"]),
              dict(name="history2", desc=HIST + ", every choice of remembered leaves, before each block any target set and one arbitrary 256-bit hash asked for", src="queries.cpp", defs=dict(MINN=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, STEPS=2, ADDS=1), thorough=dict(MAXN=3, STEPS=3, ADDS=1), reach=["end"]),
              shaped(dict(), "queries.cpp", more=", the same asked before each block", quick=dict(MINN=7, MAXN=9, SHAPED=1, ADDS=1), thorough=dict(MINN=7, MAXN=16, SHAPED=2, ADDS=1, MAXK=0))]),
    "C35": dict(
        jobs=[dict(name="history", desc=HIST + ", each block undone and done again or not, every choice of remembered leaves, in memory or in a file; between and after blocks honest proofs and arbitrary ones with up to all needed hashes, the pollard pruned or restored", src="memory.cpp", defs=dict(MINN=0, DENSE=16, MAXK=2), quick=dict(MAXN=3, STEPS=1, ADDS=1, FILES=1), thorough=dict(MAXN=4, STEPS=2, ADDS=1, FILES=1), reach=["end", "undone", "accepted", "refused"])]),
    "C36": dict(
        jobs=[dict(name="fresh", desc="forests of up to {MAXN} leaves; undo data with any 64-bit number of additions, up to {DEL} arbitrary 64-bit positions and up to {DEL} hashes, each arbitrary or one of the leaves", src="badundo.cpp", defs=dict(STEPS=0, DENSE=8, MAXK=2), quick=dict(MAXN=3, DEL=2), thorough=dict(MAXN=5, DEL=3), reach=["end", "refused", "undone"]),
              dict(name="later", desc="forests of up to {MAXN} leaves after up to {STEPS} block(s) with deletions; undo data with any 64-bit number of additions, up to {DEL} arbitrary 64-bit positions and up to {DEL} hashes, each arbitrary, a deleted leaf or one of the leaves", src="badundo.cpp", defs=dict(DENSE=8, MAXK=2), quick=dict(MAXN=4, STEPS=1, DEL=1), thorough=dict(MAXN=4, STEPS=1, DEL=2), reach=["end", "refused", "undone"])]),
}

for _c in CHECKS.values():
    if "bounds" not in _c:
        _c["bounds"] = {t: "; ".join(f"{j['name']}: " + j["desc"].format(**{**j.get("defs", {}), **j.get(t, {})})
                                      for j in _c["jobs"] if t in j.get("tiers", ("quick", "thorough"))) for t in ("quick", "thorough")}
