"""Known findings: inputs on which yupp breaks a property, see known-findings.json."""
import json, os
import engine

PATH = os.path.join(engine.ROOT, "known-findings.json")


def report(c):
    with open(PATH) as f:
        q = [x for x in json.load(f)["findings"] if x["property"] == c.pid and x.get("status") == "open"]
    if not q:
        return
    cs = [engine.one(x["name"], x["input"], x.get("options", []), iso=True) for x in q]
    engine.observe(cs, c.tmp, batch=1, warm=False)
    for x, k in zip(q, cs):
        if fails(x, k["obs"][0]):
            c.known.append(x["what"])


def fails(x, o):
    if x["fails"] == "process":
        return o["exc"] in ("died", "hang")
    if x["fails"] == "error":
        return bool(o["errs"]) and bool(o["rc"])
    return False
