------------------------------- MODULE DomGen -------------------------------
(***************************************************************************)
(* Every structure that a pool of nodes can be given by editing: the state *)
(* graph of Dom over the operations on the pool, up to the texts the nodes *)
(* have.  Each structure is printed once, with a shortest sequence of      *)
(* operations that leads to it.                                            *)
(***************************************************************************)
EXTENDS Dom, Json, IOUtils

Pool == JsonDeserialize(IOEnv.POOL)    \* [init: operations that make the pool, ops: names of operations]

VARIABLES m, path
vars == <<m, path>>
view == <<m.kids, m.attrs, m.loose>>

RECURSIVE Run(_, _, _)
Run(x, ops, i) == IF i > Len(ops) THEN x ELSE Run(Apply(x, ops[i]).m, ops, i + 1)

Init == /\ m = Run(M0, Pool.init, 1)
        /\ path = <<>>

Ops == {Pool.ops[i] : i \in 1..Len(Pool.ops)}
Steps == {<<op, a, b, <<>>, <<>>>> : op \in Ops \cap {"child", "sibling", "replace"}, a \in 1..Len(m.k), b \in 1..Len(m.k)}
         \cup {<<op, a, b, <<>>, <<>>>> : op \in Ops \cap {"root"}, a \in {n \in 1..Len(m.k) : m.k[n] = "doc"}, b \in 1..Len(m.k)}

Next == \E o \in Steps :
            LET r == Apply(m, o) IN
            /\ r.spec /\ r.m # m
            /\ m' = r.m
            /\ path' = Append(path, <<o[1], o[2], o[3]>>)

Spec == Init /\ [][Next]_vars

Inv == Sound(m) /\ PrintT("PATH " \o ToJson(path))
\* a refused operation leaves everything as it was
RefusedKeeps == \A o \in Steps : LET r == Apply(m, o) IN r.err => r.m = m
=============================================================================
