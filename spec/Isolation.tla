----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Parses beside, after and within each other (property C14).              *)
(*                                                                         *)
(* Threads begin and end parses.  A parse may begin while others of the    *)
(* same thread are open (inside of their handlers): the last begun ends    *)
(* first.  What a parse ends with is a function of its document and its    *)
(* handler (Ref), whatever else has happened, and the tree it returned is  *)
(* the same whenever it is looked at.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES open,    \* thread -> parses begun and not ended, <<document, handler>>
          kept,    \* thread -> digests of trees returned ("" for none), in order
          last,    \* of the latest step: [what, got, ref]
          tr, step, bad, hist
tvars == <<tr, step, bad>>
vars == <<open, kept, last, tr, step, bad, hist>>

Begin(t, what) == /\ open' = [open EXCEPT ![t] = Append(@, what)]
                  /\ UNCHANGED kept
End(t, tree) == /\ open[t] # <<>>
                /\ open' = [open EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                /\ kept' = [kept EXCEPT ![t] = Append(@, tree)]
Look(t, i) == /\ i \in 1..Len(kept[t]) /\ kept[t][i] # ""
              /\ UNCHANGED <<open, kept>>
Top(t) == open[t][Len(open[t])]

----------------------------------------------------------------------------
(* Histories of one thread: sequences of operations, as indices             *)
H == JsonDeserialize(IOEnv.HIST)   \* [ops: number of operations, max: length]
HistInit == /\ hist = <<>> /\ open = <<>> /\ kept = <<>> /\ last = "" /\ tr = 0 /\ step = 0 /\ bad = ""
HistNext == /\ Len(hist) < H.max
            /\ \E i \in 1..H.ops : hist' = Append(hist, i)
            /\ UNCHANGED <<open, kept, last, tvars>>
HistSpec == HistInit /\ [][HistNext]_vars
HistInv == Len(hist) = H.max => PrintT("HIST " \o ToJson(hist))

----------------------------------------------------------------------------
(* The machine on its own: two threads, two documents                       *)
Docs == {1, 2}
ModelInit == /\ open = [t \in 1..2 |-> <<>>] /\ kept = [t \in 1..2 |-> <<>>] /\ last = [what |-> 0, got |-> 0]
             /\ tr = 0 /\ step = 0 /\ bad = "" /\ hist = <<>>
ModelNext == /\ \E t \in 1..2 :
                   \/ \E d \in Docs : /\ Len(open[t]) < 2 /\ Len(kept[t]) + Len(open[t]) < 3
                                      /\ Begin(t, d) /\ UNCHANGED last
                   \/ /\ open[t] # <<>> /\ End(t, Top(t)) /\ last' = [what |-> Top(t), got |-> Top(t)]
             /\ UNCHANGED <<tvars, hist>>
ModelSpec == ModelInit /\ [][ModelNext]_vars
Function == last.got = last.what
Nested == \A t \in 1..2 : Len(open[t]) + Len(kept[t]) <= 3
KeptStays == [][\A t \in 1..2 : \A i \in 1..Len(kept[t]) : kept'[t][i] = kept[t][i]]_vars

----------------------------------------------------------------------------
(* Recorded histories: R.log in the order the steps were noted, R.ref the   *)
(* digests of the parses when they are all there is, R.keys what they are   *)
Traces == ndJsonDeserialize(IOEnv.TRACE)
R == Traces[tr]
E == R.log[step + 1]

TraceInit == /\ tr \in 1..Len(Traces) /\ step = 0 /\ bad = "" /\ hist = <<>> /\ last = ""
             /\ open = [t \in 1..Traces[tr].nt |-> <<>>] /\ kept = [t \in 1..Traces[tr].nt |-> <<>>]
Key(e) == ToString(e.doc) \o e.h \o ToString(e.n)
TraceNext ==
    /\ bad = "" /\ UNCHANGED <<tr, hist>>
    /\ IF "crash" \in DOMAIN R THEN bad' = R.crash /\ UNCHANGED <<open, kept, last, step>>
       ELSE /\ step < Len(R.log)
            /\ step' = step + 1
            /\ CASE E.k = "begin" -> Begin(E.t, Key(E)) /\ bad' = "" /\ UNCHANGED last
                 [] E.k = "end" -> /\ End(E.t, E.tree)
                                   /\ last' = Top(E.t)
                                   /\ bad' = IF E.d # R.ref[Top(E.t)] THEN "another result" ELSE ""
                 [] E.k = "look" -> IF ~(E.i \in 1..Len(kept[E.t])) THEN bad' = "no such tree" /\ UNCHANGED <<open, kept, last>>
                                    ELSE /\ Look(E.t, E.i)
                                         /\ bad' = IF kept[E.t][E.i] # E.d THEN "a tree has changed" ELSE ""
                                         /\ UNCHANGED last
                 [] OTHER -> bad' = E.k /\ UNCHANGED <<open, kept, last>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == bad # "" \/ ("crash" \notin DOMAIN R /\ step = Len(R.log))
TraceInv == Done => PrintT("RES " \o ToJson(<<tr, bad, step>>))
=============================================================================
