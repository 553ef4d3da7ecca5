------------------------------- MODULE Stack -------------------------------
(***************************************************************************)
(* Scope stacks (property C17): what was pushed last is popped first, a    *)
(* lookup finds the most recent entry that is still there.  An entry is    *)
(* <<key, value>>.  On a stack of kind "unique" or "names" a key that is   *)
(* there already is refused (silently by "names").                         *)
(*                                                                         *)
(* Histories are explored exhaustively (HistSpec, which prints every       *)
(* history), and recorded histories of the real stacks are validated       *)
(* (TraceSpec).                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Keys == <<"", "a", "b", "c", "d">>

Has(s, k) == \E i \in 1..Len(s) : s[i][1] = k
Top(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
PopN(s, n) == SubSeq(s, 1, IF n >= Len(s) THEN 0 ELSE Len(s) - n)
Lookup(s, k) == IF ~Has(s, k) THEN 0
                ELSE s[CHOOSE i \in 1..Len(s) : s[i][1] = k /\ \A j \in (i + 1)..Len(s) : s[j][1] # k][2]

\* operation o = <<name, key, n>>, the v-th of the history, on stack s
Apply(kind, s, o, v) ==
    CASE o[1] = "push" -> IF kind # "simple" /\ Has(s, o[2]) THEN s ELSE Append(s, <<o[2], v>>)
      [] o[1] \in {"pop", "poplast"} -> PopN(s, 1)
      [] o[1] = "popn" -> PopN(s, o[3])
      [] OTHER -> s
Refused(kind, s, o) == o[1] = "push" /\ kind = "unique" /\ Has(s, o[2])

----------------------------------------------------------------------------
(* All histories up to a length *)
VARIABLES s, hist, tr
vars == <<s, hist, tr>>

H == JsonDeserialize(IOEnv.HIST)     \* [ops: operations, max: length]
HistInit == s = <<>> /\ hist = <<>> /\ tr = 0
HistNext == /\ Len(hist) < H.max
            /\ \E i \in 1..Len(H.ops) :
                  /\ hist' = Append(hist, i)
                  /\ s' = Apply("simple", s, H.ops[i], Len(hist) + 1)
            /\ UNCHANGED tr
HistSpec == HistInit /\ [][HistNext]_vars
\* last in, first out: the values on the stack are in the order they were pushed
InOrder == \A i, j \in 1..Len(s) : i < j => s[i][2] < s[j][2]
FindsTop == \A k \in {Keys[i] : i \in 1..Len(Keys)} :
                Has(s, k) => \E i \in 1..Len(s) : s[i] = <<k, Lookup(s, k)>> /\ \A j \in (i + 1)..Len(s) : s[j][1] # k
HistInv == InOrder /\ FindsTop /\ (Len(hist) = H.max => PrintT("HIST " \o ToJson(hist)))

----------------------------------------------------------------------------
(* Recorded histories.  hist is the number of operations validated. *)
Traces == ndJsonDeserialize(IOEnv.TRACE)
R == Traces[tr]

Differs(o, b, x) ==   \* x: the stack after o
    IF "broken" \in DOMAIN b THEN b.broken
    ELSE IF b.len # Len(x) THEN "length"
    ELSE IF b.all # x THEN "entries"
    ELSE IF o[1] = "peek" /\ b.peek # Top(x, o[3]) THEN "top entries"
    ELSE IF b.err # Refused(R.kind, s, o) THEN "refusal"
    ELSE IF R.kind # "simple" /\ b.look # [i \in 1..Len(Keys) |-> Lookup(x, Keys[i])] THEN "lookup"
    ELSE ""

Say(bad, n) == PrintT("RES " \o ToJson(<<tr, bad, n>>))
TraceInit == tr \in 1..Len(Traces) /\ s = <<>> /\ hist = 0
TraceNext ==
    /\ hist < Len(R.ops) /\ tr' = tr
    /\ LET o == R.ops[hist + 1]
           x == Apply(R.kind, s, o, hist + 1)
           d == Differs(o, R.obs[hist + 1], x)
       IN IF d # "" THEN Say(o[1] \o ": " \o d, hist + 1) /\ hist' = Len(R.ops) + 1 /\ s' = <<>>
          ELSE /\ s' = x /\ hist' = hist + 1
               /\ hist' = Len(R.ops) => Say("", hist')
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == InOrder
=============================================================================
