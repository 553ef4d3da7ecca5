------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* Sessions with arbitrary input (property C03): parse it, parse it with   *)
(* a handler of one's own, serialize what was returned.  Every step ends,  *)
(* within a budget which depends on the size of the input, in one of the   *)
(* ways below; there is no transition for a crash, a step that does not    *)
(* end, or a result that is neither a document nor an error.               *)
(*                                                                         *)
(* Entity declarations form a graph; what a reference stands for is        *)
(* computed here.  References that lead back to themselves are errors,     *)
(* expansions in proportion are followed, those beyond need not be, and    *)
(* what is delivered is bounded.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

----------------------------------------------------------------------------
(* Entity graphs.  g[i] = [to: the entities referred to by the i-th, times:  *)
(* how often]; 4 is not declared.                                            *)
Ents == 1..3
Targets == 1..4
Lists == {<<>>} \cup {<<a>> : a \in Targets} \cup {<<a, b>> : a \in Targets, b \in Targets}
Nodes == {[to |-> l, times |-> t] : l \in Lists, t \in {1, 300}} \ {[to |-> <<>>, times |-> 300]}
Places == {"content", "value", "default"}

RECURSIVE Reach(_, _)
Reach(g, s) == LET n == s \cup UNION {{g[i].to[j] : j \in 1..Len(g[i].to)} : i \in s \cap Ents}
               IN IF n = s THEN s ELSE Reach(g, n)
Succ(g, i) == {g[i].to[j] : j \in 1..Len(g[i].to)}
Cyclic(g, i) == \E k \in Reach(g, {i}) \cap Ents : k \in Reach(g, Succ(g, k))
Undeclared(g, i) == 4 \in Reach(g, {i})
\* references followed by a reference to i, in an acyclic graph
RECURSIVE Cost(_, _)
Cost(g, i) == LET RECURSIVE Sum(_)
                  Sum(j) == IF j = 0 THEN 0 ELSE Cost(g, g[i].to[j]) + Sum(j - 1)
              IN 1 + g[i].times * Sum(Len(g[i].to))
\* what parsing must end in: an error, a document, or either
Class(g, times) == IF Cyclic(g, 1) \/ Undeclared(g, 1) THEN "error"
                   ELSE IF times * Cost(g, 1) <= 20000 THEN "document" ELSE "any"

VARIABLES g, times, place,         \* an entity graph and its use
          tr, step, got, bad       \* the session validated, steps done, what parsing returned
gvars == <<g, times, place>>
tvars == <<tr, step, got, bad>>
vars == <<gvars, tvars>>

GraphInit == /\ g \in [Ents -> Nodes] /\ times \in {1, 20} /\ place \in Places
             /\ tr = 0 /\ step = 0 /\ got = "" /\ bad = ""
GraphNext == FALSE /\ UNCHANGED vars
GraphSpec == GraphInit /\ [][GraphNext]_vars
\* one of 1/ONE of all graphs is printed, as a function of the graph
Hash == LET h(i) == g[i].times + 7 * Len(g[i].to) + IF Len(g[i].to) > 0 THEN 31 * g[i].to[1] + 101 * g[i].to[Len(g[i].to)] ELSE 0
        IN h(1) * 11 + h(2) * 1009 + h(3) * 2003 + times * 17 + (CASE place = "content" -> 1 [] place = "value" -> 2 [] OTHER -> 3)
Every == atoi(IOEnv.EVERY)
GraphInv == (Hash % Every = atoi(IOEnv.WHICH)) =>
                PrintT("GRAPH " \o ToJson(<<[i \in Ents |-> <<g[i].to, g[i].times>>], times, place, Class(g, times)>>))

----------------------------------------------------------------------------
(* Recorded sessions                                                         *)
Traces == ndJsonDeserialize(IOEnv.TRACE)
R == Traces[tr]
S == R.steps[step + 1]

\* milliseconds, megabytes and kilobytes for n bytes of input
MsBudget(n) == 30000 + n \div 30
MbBudget(n) == 800 + n \div 1500
KbBudget(n) == 11000 + 11 * (n \div 1024 + 1)

Ways == [parse |-> {"document", "error"}, events |-> {"document", "error"}, lookups |-> {"document", "error"},
         serialize |-> {"text", "error"}]
May(s) == CASE s.k = "parse" -> got = ""
            [] s.k = "serialize" -> got = "document"
            [] OTHER -> got # ""
Judge(s) == IF ~May(s) THEN "out of order"
            ELSE IF s.out \notin Ways[s.k] THEN s.k \o " returned " \o s.out
            ELSE IF s.ms > MsBudget(R.n) THEN s.k \o " took too long"
            ELSE IF s.mb > MbBudget(R.n) THEN s.k \o " took too much memory"
            ELSE IF s.k \in {"events", "lookups"} /\ s.size > KbBudget(R.n) THEN s.k \o " delivered too much"
            ELSE IF s.k \in {"parse", "lookups"} /\ R.class # "any" /\ s.out # R.class
                 THEN s.k \o " returned " \o s.out \o " instead of " \o R.class
            ELSE ""
Crashed == "crash" \in DOMAIN R

SessionInit == /\ tr \in 1..Len(Traces) /\ step = 0 /\ got = "" /\ bad = ""
               /\ g = <<>> /\ times = 0 /\ place = ""
SessionNext == /\ bad = "" /\ UNCHANGED <<gvars, tr>>
               /\ IF Crashed THEN bad' = R.crash /\ UNCHANGED <<step, got>>
                  ELSE /\ step < Len(R.steps)
                       /\ step' = step + 1
                       /\ bad' = Judge(S)
                       /\ got' = IF S.k = "parse" THEN S.out ELSE got
SessionSpec == SessionInit /\ [][SessionNext]_vars
Ended == bad # "" \/ (~Crashed /\ step = Len(R.steps))
SessionInv == Ended => PrintT("RES " \o ToJson(<<tr, bad, step>>))
=============================================================================
