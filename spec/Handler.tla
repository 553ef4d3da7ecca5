------------------------------ MODULE Handler ------------------------------
(***************************************************************************)
(* The dialogue between a parser and an event handler (property C12).      *)
(*                                                                         *)
(* A document gives rise to a sequence of notifications, which depends on  *)
(* nothing but the document, and an outcome.  A handler may leave some     *)
(* kinds of notifications unset (they are skipped), and may answer one of  *)
(* those it receives with an error: then nothing more is delivered, no     *)
(* document is returned, and the error is the outcome.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES doc, at, bad,   \* of the validation, below
          what,   \* the notifications of the document: [n: what, h: handler, ok: outcome]
          unset,  \* handlers that are not set
          fault,  \* the number of the notification answered with an error; 0: none
          pos,    \* notifications the parser has come to
          seen,   \* notifications delivered
          out     \* "": still parsing, "done", "error" or "fault"
hvars == <<what, unset, fault, pos, seen, out>>

Start(w, u, f) == what = w /\ unset = u /\ fault = f /\ pos = 0 /\ seen = <<>> /\ out = ""

Skip == /\ out = "" /\ pos < Len(what.n) /\ what.h[pos + 1] \in unset
        /\ pos' = pos + 1 /\ UNCHANGED <<what, unset, fault, seen, out>>
Deliver == /\ out = "" /\ pos < Len(what.n) /\ what.h[pos + 1] \notin unset
           /\ pos' = pos + 1 /\ seen' = Append(seen, what.n[pos + 1])
           /\ out' = IF Len(seen) + 1 = fault THEN "fault" ELSE ""
           /\ UNCHANGED <<what, unset, fault>>
End == /\ out = "" /\ pos = Len(what.n)
       /\ out' = IF what.ok THEN "done" ELSE "error"
       /\ UNCHANGED <<what, unset, fault, pos, seen>>
Step == Skip \/ Deliver \/ End

----------------------------------------------------------------------------
(* The machine on its own: every short document, every set of unset         *)
(* handlers, every fault.                                                   *)
Kinds == {"a", "b", "c"}
ModelInit == \E n \in 0..5 : \E h \in [1..n -> Kinds] : \E ok \in BOOLEAN : \E u \in SUBSET Kinds : \E f \in 0..6 :
                Start([n |-> [i \in 1..n |-> i], h |-> h, ok |-> ok], u, f)
ModelNext == Step \/ (out # "" /\ UNCHANGED hvars)
ModelSpec == ModelInit /\ doc = 0 /\ at = 0 /\ bad = "" /\ [][ModelNext /\ UNCHANGED <<doc, at, bad>>]_hvars /\ WF_hvars(Step)

Wanted == SelectSeq(what.n, LAMBDA i : what.h[i] \notin unset)   \* what.n is the identity here
PrefixOfWanted == seen = SubSeq(Wanted, 1, Len(seen))
NothingAfterFault == (fault > 0 /\ fault <= Len(Wanted)) => Len(seen) <= fault
FaultIsOutcome == out # "" => (out = "fault") = (fault > 0 /\ fault <= Len(Wanted))
OthersSeeAll == out \in {"done", "error"} => seen = Wanted
Ends == <>(out # "")
ModelInv == PrefixOfWanted /\ NothingAfterFault /\ FaultIsOutcome /\ OthersSeeAll

----------------------------------------------------------------------------
(* Recorded dialogues.  at: the run being validated, bad: what differs.     *)
vars == <<hvars, doc, at, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ran == Traces[doc].runs[at]

ToSet(q) == {q[i] : i \in 1..Len(q)}
TraceInit == \E d \in 1..Len(Traces) : \E r \in 1..Len(Traces[d].runs) :
                /\ doc = d /\ at = r /\ bad = ""
                /\ LET x == Traces[d].runs[r] IN Start(Traces[d].base[x.b], ToSet(x.unset), x.fault)

\* the recorded run is a behaviour of the machine: what it saw is what the machine delivers, step by step
Follows == /\ Step
           /\ bad' = IF Len(seen') > Len(seen) /\ (Len(seen') > Len(Ran.seen) \/ Ran.seen[Len(seen')] # seen'[Len(seen')])
                     THEN IF Len(seen') > Len(Ran.seen) THEN "missing" ELSE "different"
                     ELSE IF out' = "" THEN ""
                     ELSE IF Len(Ran.seen) > Len(seen') THEN IF out' = "fault" THEN "after the error" ELSE "too many"
                     ELSE IF Ran.out # out' THEN IF out' = "fault" THEN "error lost" ELSE "outcome"
                     ELSE IF out' # "done" /\ Ran.doc THEN "document in spite of the error"
                     ELSE IF out' = "done" /\ Ran.doc # what.doc THEN "no document"
                     ELSE ""
           /\ UNCHANGED <<doc, at>>
TraceNext == (bad = "" /\ out = "" /\ Follows) \/ ((bad # "" \/ out # "") /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == (bad # "" \/ out # "") => PrintT("RES " \o ToJson(<<doc, at, bad, Len(seen)>>))
============================================================================
