----------------------------- MODULE DeclsTrace -----------------------------
(***************************************************************************)
(* Trace validation for Decls.  A trace (a line of $TRACE) has             *)
(*   b      the document that was parsed, or <<>>                          *)
(*   names, elems   what is looked up                                      *)
(*   ops    operations                                                     *)
(*   obs    what was seen before and after each operation: [err, nodes,    *)
(*          kids, found], or [broken]                                      *)
(*   more   a sequence of [o, obs]: each operation was tried after ops, on *)
(*          tables of its own                                              *)
(***************************************************************************)
EXTENDS Decls, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES tr, i, m, st
vars == <<tr, i, m, st>>
R == Traces[tr]

\* b: what was seen, old: the declarations as they were before
Differs(r, b, old) ==
    IF "broken" \in DOMAIN b THEN b.broken
    ELSE IF r.err # b.err THEN IF r.err THEN "not refused" ELSE "refused"
    ELSE IF ~("nodes" \in DOMAIN b) THEN ""
    ELSE IF Len(b.nodes) # Len(r.m.nodes) THEN "nodes"
    ELSE IF \E n \in 1..Len(b.nodes) : IF n <= Len(old) THEN b.nodes[n] # old[n] ELSE ~Denotes(r.m, b.nodes[n], r.m.nodes[n]) THEN "a declaration"
    ELSE IF ~r.m.rm /\ b.kids # r.m.kids THEN "order"
    ELSE IF \A j \in 1..Len(R.names) : b.found[j] = Found(r.m, R.names[j], R.elems) THEN ""
    ELSE "what is found"

Start(t) == IF t.b = <<>> THEN [m |-> D0, spec |-> TRUE, err |-> FALSE] ELSE Parse(t.b) @@ [err |-> FALSE]

Init == /\ tr \in 1..N
        /\ i = 0
        /\ m = Start(Traces[tr]).m
        /\ st = "run"

Say(verdict, bad, at) == PrintT("RES " \o ToJson(<<tr, verdict, bad, at>>))

Stop(verdict, bad, at) == st' = "end" /\ Say(verdict, bad, at) /\ UNCHANGED <<tr, i, m>>

Operation ==
    /\ st = "run" /\ i <= Len(R.ops)
    /\ LET r == IF i = 0 THEN Start(R) ELSE Apply(m, R.ops[i])
           d == IF r.spec THEN Differs(r, R.obs[i + 1], IF i > 0 /\ "nodes" \in DOMAIN R.obs[i] THEN R.obs[i].nodes ELSE <<>>) ELSE ""
       IN IF ~r.spec THEN Stop("unspec", "", i)
          ELSE IF d # "" THEN Stop("done", (IF i = 0 THEN "parse" ELSE R.ops[i][1]) \o ": " \o d, i)
          ELSE m' = r.m /\ i' = i + 1 /\ UNCHANGED <<tr, st>>

Final ==
    /\ st = "run" /\ i > Len(R.ops)
    /\ st' = "end"
    /\ UNCHANGED <<tr, i, m>>
    /\ LET diff == TLCEval([j \in 1..Len(R.more) |->
                        LET r == Apply(m, R.more[j].o) IN IF r.spec THEN Differs(r, R.more[j].obs, <<>>) ELSE ""])
           badj == {j \in 1..Len(R.more) : diff[j] # ""}
       IN IF badj = {} THEN Say("done", "", Len(R.ops) + Len(R.more))
          ELSE LET j == CHOOSE j \in badj : \A q \in badj : j <= q IN
               Say("done", R.more[j].o[1] \o ": " \o diff[j], -j)

Next == Operation \/ Final
Spec == Init /\ [][Next]_vars
Inv == st = "run" => Sound(m)
=============================================================================
