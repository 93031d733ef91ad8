------------------------------- MODULE MC_Lib ------------------------------
(* The trees of the libraries, computed once (libtrees.json) for the other   *)
(* models; a library that cannot be read alone is left out.                  *)
EXTENDS YRun
VARIABLE vLib
Init == vLib = 0
Next == vLib = 0 /\ vLib' = 1 /\ JsonSerialize(IOEnv.TREES, [lib \in LibNames |-> LibTree(lib, FALSE)])
=============================================================================
