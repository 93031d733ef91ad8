------------------------------ MODULE MC_Lang ------------------------------
EXTENDS YLoc, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Cfg(c) == [py |-> c.py, skip |-> c.skip, trim |-> c.trim, reduce |-> c.reduce, browse |-> FALSE,
           files |-> [n \in {c.files[k][1] : k \in 1..Len(c.files)} |-> c.files[CHOOSE k \in 1..Len(c.files) : c.files[k][1] = n][2]],
           dirs |-> c.dirs, input |-> c.input, path |-> c.path, module |-> c.module,
           defs |-> [n \in {c.defs[k][1] : k \in 1..Len(c.defs)} |-> c.defs[CHOOSE k \in 1..Len(c.defs) : c.defs[k][1] = n][2]],
           passage |-> c.passage]
VARIABLES k, res
Init == k \in 1..Len(Cases) /\ res = [k |-> "todo"]
Next == res.k = "todo" /\ k' = k /\ res' = Translate(Cases[k].text, Cfg(Cases[k]), Cases[k].output)
Show == res.k = "todo" \/ PrintT(<<"R", k, ToJson(IF res.k = "err" THEN [k |-> "err", m |-> res.m, f |-> res.f, i |-> res.i, loc |-> ErrorLoc(res)] ELSE res)>>)
=============================================================================
