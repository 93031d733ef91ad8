"""Histories of commands derived by TLC from scenarios (module MC_Hist)."""
import json, os, re
import tlc

H = re.compile(r'^<<"H", (\d+), "([^"]*)", (".*")>>$', re.M)


def derive(scens, tmp, lib, timeout=600):
    """scens: [{files, mkdirs, cmds, depth}]; gives {number: [(outcome, [command, ...])]}, states, what breaks a law"""
    path = os.path.join(tmp, "hist.json")
    with open(path, "w") as f:
        json.dump([{"files": [list(x) + [False, 1][len(x) - 2:] if len(x) < 4 else list(x) for x in s["files"]], "mkdirs": s.get("mkdirs", []), "cmds": s["cmds"], "depth": s["depth"], "mode": s.get("mode", "hist"), "args": s.get("args", [])} for s in scens], f)
    for _ in range(6):
        rc, out = tlc.run("MC_Hist", {"HIST": path, "LIB": lib}, timeout=timeout, tmp=tmp)
        if not tlc.answer(out):
            break
    res = {k: [] for k in range(len(scens))}
    seen = set()
    for m in H.finditer(out):
        k, t = int(m[1]) - 1, tlc.unjson(m[3])
        if (k, tuple(t)) not in seen:
            seen.add((k, tuple(t)))
            res[k].append((m[2], [scens[k]["cmds"][j - 1] for j in t]))
    bad = out[out.find("Error:"):][:3000] if "Error:" in out else ""
    return res, tlc.states(out), bad


EDITS = ("write", "rm", "touch")


def observed(histories):
    """histories without edits at their end, which nothing would look at, and without those that begin another"""
    hs = set()
    for r, h in histories:
        h = [tuple(c) for c in h]
        while h and h[-1][0] in EDITS:
            h.pop()
        if h:
            hs.add((r, tuple(h)))
    heads = {h[:k] for _, h in hs for k in range(1, len(h))}
    return sorted((r, h) for r, h in hs if h not in heads)


def cases(scen, histories):
    if scen.get("mode") == "repl":
        hs = [[["repl", "".join(c[0] + "\n" for c in h), *scen["args"]]] for _, h in histories]
        # the last line without an end
        hs += [[["repl", h[0][1][:-1], *scen["args"]]] for h in hs[::7]]
    else:
        hs = [[list(c) for c in h] for _, h in histories]
    return [{"files": [list(x) for x in scen["files"]], "mkdirs": scen.get("mkdirs", []), "cmds": h} for h in hs]
