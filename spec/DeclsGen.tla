------------------------------ MODULE DeclsGen ------------------------------
(***************************************************************************)
(* Every state that the tables of a document can be brought to with some   *)
(* operations, up to a number of steps.  Each is printed once, with a      *)
(* shortest history that leads to it.                                      *)
(***************************************************************************)
EXTENDS Decls, Json, IOUtils

Pool == JsonDeserialize(IOEnv.POOL)    \* [ops: operations, max: steps]

VARIABLES m, path
vars == <<m, path>>
view == m

Init == m = D0 /\ path = <<>>

Next == /\ Len(path) < Pool.max
        /\ \E j \in 1..Len(Pool.ops) :
            LET r == Apply(m, Pool.ops[j]) IN
            /\ r.spec /\ r.m # m
            /\ m' = r.m
            /\ path' = Append(path, j)

Spec == Init /\ [][Next]_vars

Inv == Sound(m) /\ PrintT("PATH " \o ToJson(path))
RefusedKeeps == \A j \in 1..Len(Pool.ops) : LET r == Apply(m, Pool.ops[j]) IN r.err => r.m = m
=============================================================================
