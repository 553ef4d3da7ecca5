------------------------------ MODULE DomTrace ------------------------------
(***************************************************************************)
(* Trace validation for Dom.  A trace (a line of $TRACE) has               *)
(*   init  operations that make the pool, ops  the operations after them   *)
(*   obs   what was seen after each operation of ops: [err, n: all nodes], *)
(*         or only [err] where the nodes were not looked at                *)
(*   more  a sequence of [o, obs]: each operation was tried after ops, on  *)
(*         nodes of its own                                                *)
(***************************************************************************)
EXTENDS Dom, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES tr, i, m, st
vars == <<tr, i, m, st>>
R == Traces[tr]

RECURSIVE Run(_, _, _)
Run(x, ops, j) == IF j > Len(ops) THEN x ELSE Run(Apply(x, ops[j]).m, ops, j + 1)

\* why what was seen (b) is not what r says, "" if it is
Differs(r, b) ==
    IF "broken" \in DOMAIN b THEN b.broken
    ELSE IF r.err # b.err THEN IF r.err THEN "not refused" ELSE "refused"
    ELSE IF ~("n" \in DOMAIN b) THEN ""
    ELSE IF Len(b.n) # Count(r.m) THEN "nodes"
    ELSE IF \A n \in Nodes(r.m) : b.n[n] = Seen(r.m, n) THEN ""
    ELSE LET n == CHOOSE n \in Nodes(r.m) : b.n[n] # Seen(r.m, n)
             w == Seen(r.m, n)
             f == CHOOSE j \in 1..12 : b.n[n][j] # w[j]
         IN <<"parent", "first child", "last child", "next", "previous", "attributes", "content", "name", "owner", "name space", "declarations", "walk">>[f]
            \o " of a " \o r.m.k[n]

Init == /\ tr \in 1..N
        /\ i = 1
        /\ m = Run(M0, Traces[tr].init, 1)
        /\ st = "run"

Say(verdict, bad, at) == PrintT("RES " \o ToJson(<<tr, verdict, bad, at>>))

Step ==
    /\ st = "run" /\ i <= Len(R.ops)
    /\ LET r == Apply(m, R.ops[i])
           d == IF r.spec THEN Differs(r, R.obs[i]) ELSE ""
       IN IF ~r.spec THEN st' = "end" /\ Say("unspec", "", i) /\ UNCHANGED <<tr, i, m>>
          ELSE IF d # "" THEN st' = "end" /\ Say("done", R.ops[i][1] \o ": " \o d, i) /\ UNCHANGED <<tr, i, m>>
          ELSE m' = r.m /\ i' = i + 1 /\ UNCHANGED <<tr, st>>

Final ==
    /\ st = "run" /\ i > Len(R.ops)
    /\ st' = "end"
    /\ UNCHANGED <<tr, i, m>>
    /\ LET diff == TLCEval([j \in 1..Len(R.more) |->
                        LET r == Apply(m, R.more[j].o) IN IF r.spec THEN Differs(r, R.more[j].obs) ELSE ""])
           badj == {j \in 1..Len(R.more) : diff[j] # ""}
       IN IF badj = {} THEN Say("done", "", Len(R.ops) + Len(R.more))
          ELSE LET j == CHOOSE j \in badj : \A q \in badj : j <= q IN
               Say("done", R.more[j].o[1] \o ": " \o diff[j], -j)

Next == Step \/ Final
Spec == Init /\ [][Next]_vars
Inv == st = "run" => Sound(m)
=============================================================================
