"""Grammars of program pairs for MC_Enum.

A grammar is {"law", "start", "rules": {name: [alternative, ...]}}; an alternative is a list of items, its first item may be a
number, the cost (by default the number of nonterminals in it).
An item: "text"; "@Name" a nonterminal; "@Name#k" the same, its text kept under the number k; "@Name!k" kept and not written;
("text", "text") different texts for the two sides; "%k" in a text stands for the text kept under k.
"""
import json, os, re
import tlc

N = re.compile(r"^@(\w+)(?:([#!])(\d))?$")
K = re.compile(r"(%\d)")


# TLC loses characters beyond ASCII when it moves states to disk: they stand in the states as ~e~
NONASCII, CODE = "\u00e9", "~e~"


def parts(s):
    s = s.replace(NONASCII, CODE)
    return [{"s": "", "k": int(x[1])} if K.fullmatch(x) else {"s": x, "k": 0} for x in K.split(s) if x]


def items(q):
    out = []
    for x in q:
        if isinstance(x, tuple):
            out.append({"t": "s", "a": parts(x[0]), "b": parts(x[1])})
            continue
        m = N.match(x)
        if not m:
            out.append({"t": "s", "a": parts(x), "b": parts(x)})
        elif m[2]:
            k = int(m[3])
            out += [{"t": "b", "k": k}, {"t": "n", "n": m[1]}, {"t": "e", "k": k, "h": m[2] == "!"}]
        else:
            out.append({"t": "n", "n": m[1]})
    return out


def alt(a):
    if isinstance(a, (str, tuple)):
        a = [a]
    a = list(a)
    c = None
    if a and isinstance(a[0], int):
        c = a.pop(0)
    q = items(a)
    return {"c": sum(1 for x in q if x["t"] == "n") if c is None else c, "r": q}


def compiled(g, budget):
    return {"start": items(g["start"] if isinstance(g["start"], list) else [g["start"]]), "budget": budget,
            "rules": {n: [alt(a) for a in alts] for n, alts in g["rules"].items()},
            "law": g["law"], "nonascii": NONASCII, "code": CODE, "files": g.get("files", []), "skip": g.get("skip", 0), "trim": g.get("trim", True),
            "reduce": g.get("reduce", False), "name": g.get("name", "t.c.yu")}


P = re.compile(r'^<<"P", (\d+), "(\w+)", (".*")>>$', re.M)


NEW = [0]     # questions to Python asked by the last derivation


def derive(gs, tmp, lib, workers=8, timeout=600, simulate=None, seed=1):
    """gs: [(grammar, budget)]; gives {number of the grammar: [(outcome, a, b)]}, (states generated, distinct), what breaks a law"""
    path = os.path.join(tmp, "gram.json")
    with open(path, "w") as f:
        json.dump([compiled(g, b) for g, b in gs], f)
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-seed", str(seed), "-depth", "200"]
    rc, out = tlc.run("MC_Enum", {"GRAM": path, "LIB": lib}, workers=workers, timeout=timeout, tmp=tmp, args=args)
    NEW[0] = tlc.answer(out)
    seen, pairs = set(), {k: [] for k in range(len(gs))}
    for m in P.finditer(out):
        a, b = [x.replace(CODE, NONASCII) for x in tlc.unjson(m[3])]
        k = int(m[1]) - 1
        if (k, a) not in seen:
            seen.add((k, a))
            pairs[k].append((m[2], a, b))
    bad = out[out.find("Error:"):][:4000] if "Error:" in out else ""
    return pairs, tlc.states(out), bad


def sample(g, rng, budget):
    """one program of a grammar, first side, chosen at random, of about so many rules"""
    left = [budget]
    caps = {}
    cheap = {n: [a for a in map(lambda x: ([x] if isinstance(x, (str, tuple)) else list(x)), alts)] for n, alts in g["rules"].items()}

    def cost(a):
        return a[0] if a and isinstance(a[0], int) else sum(1 for x in a if isinstance(x, str) and N.match(x))

    def text(t):
        return K.sub(lambda m: caps.get(int(m[0][1]), ""), t)

    def expand(q):
        out = ""
        for x in q:
            if isinstance(x, int):
                continue
            if isinstance(x, tuple):
                out += text(x[0])
                continue
            m = N.match(x)
            if not m:
                out += text(x)
                continue
            alts = cheap[m[1]]
            fit = [a for a in alts if cost(a) <= left[0]]
            if left[0] > budget // 3 and rng.random() < 0.7:
                fit = [a for a in fit if cost(a)] or fit
            a = rng.choice(fit) if fit else min(alts, key=cost)
            left[0] -= cost(a)
            s = expand(a)
            if m[2]:
                caps[int(m[3])] = s
            if m[2] != "!":
                out += s
        return out

    return expand(g["start"] if isinstance(g["start"], list) else [g["start"]])


def options(g):
    return ([] if g.get("trim", True) else ["--pp-no-trim-app-indent"]) + ([] if g.get("reduce") else ["--pp-no-reduce-emptiness"]) \
        + (["--pp-skip-comments", str(g["skip"])] if g.get("skip") else []) + g.get("opts", [])


MARKS = [x for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]


def marked(text, files):
    """every M becomes a capital letter of its own, as far as there are any"""
    left = iter(MARKS)
    sub = lambda t: re.sub("M", lambda _: next(left, "M"), t)
    return sub(text), [[f[0], sub(f[1])] + list(f[2:]) for f in files]
