"""What the check of each property consists of."""
import engine
import props_lang, props_more, props_hist, props_map, props_lib, cases, coro, crash, findings

LEVEL = {}
ASSUMPTIONS = [
    "the specification in /verif/spec states what yupp is meant to do; it was written from the documentation and the code and is itself checked for the laws of the property",
    "results the specification leaves open (floating-point arithmetic, numbers over 32 bits, non-terminating programs) are not judged",
    "bounds: grammars up to a number of rules, histories of a bounded length, random programs by seed",
]
CAP = {"C08": 70, "C21": 50}
QUICK, THOROUGH = 700, 12000


def run(c):
    pid = c.pid
    cs = c.grammars(props_lang.G.get(pid, []))
    cs += c.histories(props_hist.H.get(pid, []))
    if pid == "C15":
        c.model("MC_Crash")
        cs += crash.run(c)
    if pid == "C22":
        coro.run(c, 150 if c.quick else 3000, 20 if c.quick else 60)
    if pid in cases.CASES:
        n = cases.SIZE.get(pid, QUICK) if c.quick else THOROUGH
        rc = cases.CASES[pid](c.rng, n)
        cs += rc
    for k in range(0, len(cs), 6000):
        c.conform(cs[k:k + 6000], "conformance" if len(cs) <= 6000 else "conformance %d" % (k // 6000))
    findings.report(c)


T = "TLA+ specification checked with TLC; programs and histories derived from it replayed into yupp, every observed run validated against it as a trace"
CLAIMED = {k: T for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"]}


def setup(c):
    """nothing is built: yupp runs from /repo; checks that the tools are there"""
    cs = [engine.one("t.c.yu", "($add 1 2)")]
    c.conform(cs, "setup")
    return 0 if c.traces == 1 else 2
