"""C15: runs stopped or failing at every operation on files."""
import engine
from props_hist import B

A, NEW = "a.c.yu", "two ($upper a)\n" + "line\n" * 40
OLD = [("a.c", "old text\n", True, 2), ("a.c.bak", "older text\n", True, 1)]
SRC = [(A, NEW, False, 3), ("b.c.yu", "b ($add 1 1)\n", False, 3), ("o.c.yu", "($set __OUTPUT_FILE__ (`s/set.txt))text\n", False, 3), ("t.c.yu", "($ \\x.[($x)])", False, 3), ("p.c.yu", "($set __OUTPUT_FILE__ [p($__PASSAGE__ (1 2)).c])($__PASSAGE__ (1 2))\n", False, 3), ("bad.c.yu", "($\n", False, 3), ("other.txt", "keep\n", True, 1), ("a.h", "keep\n", False, 1),
       ("i.c.yu", "($import inc)\n($x)", False, 3), ("inc.yu", "($set x 5)i\n", False, 1), ("e.c.yu", "", False, 3)]
# what there is before: nothing, an old output, its backup, leftovers, in all ways read-only or not
STATES = [[], OLD, [("a.c", "old text\n", False, 2)], [("a.c", "old text\n", True, 2), ("a.c.bak", "older text\n", False, 1), ("a.c.tmp", "left", True, 1)], [("a.c.bak", "older text\n", True, 1)], [("a.c.tmp", "left over", False, 1)],
          OLD + [("a.c.json", "{}", False, 1), ("b.c", "old b\n", True, 1), ("s/set.txt", "old set\n", True, 1), ("s/set.txt.bak", "older set\n", True, 1), ("p1.c", "old p1\n", True, 1), ("t.ast", "old ast", False, 1), ("e.c", "old e", True, 1), ("i.c", "old i\n", True, 1), ("i.c.bak", "older i\n", True, 1)]]
RUNS = [["cli", *B, A], ["cli", *B, "--no-read-only", A], ["cli", *B, "--pp-browse", A], ["proc_file", A], ["cli", *B, "-o", "s", A], ["cli", *B, A, "b.c.yu"], ["cli", *B, "bad.c.yu", "o.c.yu"], ["cli", *B, "t.c.yu", "b.c.yu"], ["cli", *B, "p.c.yu"], ["cli", *B, "i.c.yu", "e.c.yu"], ["cli", *B, "--pp-browse", "b.c.yu", "i.c.yu"]]
MODES = ["kill", "tear", "nospace", "denied", "io"]


def cases(c):
    """(cases with one stop, cases with two)"""
    base = []
    for s in range(len(STATES)):
        for r in range(len(RUNS)):
            if r < 5 or s in (0, 6):
                base.append({"files": [list(x) for x in SRC + STATES[s]], "mkdirs": ["s"], "run": RUNS[r], "key": (s, r)})
    count = [dict(files=b["files"], mkdirs=b["mkdirs"], cmds=[["crash", "count", 0, *b["run"]]], iso=False) for b in base]
    engine.observe(count, c.tmp, warm=False)
    one, two = [], []
    for b, k in zip(base, count):
        n = k["obs"][0].get("count", [0, 0])
        for m in MODES:
            for j in range(1, n[0 if m in ("kill", "tear") else 1] + 1):
                stop = ["crash", m, j, *b["run"]]
                one.append(dict(files=b["files"], mkdirs=b["mkdirs"], cmds=[stop, b["run"]]))
                for m2 in ("kill", "tear", "io"):
                    for j2 in range(1, n[0] + 1):
                        two.append(dict(files=b["files"], mkdirs=b["mkdirs"], cmds=[stop, ["crash", m2, j2, *b["run"]], ["write", A, "three\n"], b["run"], ["crash", m, j, *b["run"]]]))
    return count, one, two


def run(c):
    count, one, two = cases(c)
    total = (len(one), len(two))
    one = one if not c.quick or len(one) < 700 else c.rng.sample(one, 700)
    two = c.rng.sample(two, min(len(two), 150 if c.quick else 6000))
    c.note("runs stopped", {"runs": len(count), "stops": total[0], "replayed": len(one), "pairs of stops": total[1], "pairs replayed": len(two)})
    return count + one + two
