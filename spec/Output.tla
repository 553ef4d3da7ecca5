------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* A serializer and its destination (property C13).  The serializer hands  *)
(* over the full output in pieces of its choice.  The destination fails at *)
(* some byte, in one of these manners:                                     *)
(*   partial  it takes the bytes before, and reports an error              *)
(*   reject   it takes nothing of the piece, and reports an error          *)
(*   short    it takes the bytes before, and reports nothing               *)
(*   late     it takes the piece, and reports an error                     *)
(*   once     as reject, but it would take later pieces                    *)
(* After a failure nothing may be taken any more, and the failure is what  *)
(* the serializer returns.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES full, mode, k,   \* the output, how and where the destination fails
          took,            \* bytes taken, in all
          failed, ret,     \* ret: "" while running, "nil", "fault"
          doc, at, step, bad   \* of the validation
mvars == <<full, mode, k, took, failed, ret>>
tvars == <<doc, at, step, bad>>
vars == <<mvars, tvars>>

Fails(n) == mode # "none" /\ took + n > k
\* how many bytes of a piece of n bytes are taken
Takes(n) == IF ~Fails(n) THEN n
            ELSE CASE mode \in {"partial", "short"} -> k - took
                   [] mode = "late" -> n
                   [] OTHER -> 0

Write(n) == /\ ret = "" /\ ~failed /\ took + n <= Len(full)
            /\ took' = took + Takes(n)
            /\ failed' = Fails(n)
            /\ UNCHANGED <<full, mode, k, ret>>
Return == /\ ret = "" /\ (failed \/ took = Len(full))
          /\ ret' = IF failed THEN "fault" ELSE "nil"
          /\ UNCHANGED <<full, mode, k, took, failed>>

----------------------------------------------------------------------------
Modes == {"none", "partial", "reject", "short", "late", "once"}
ModelInit == /\ \E n \in 0..8 : full = [i \in 1..n |-> i]
             /\ mode \in Modes /\ k \in 0..8 /\ took = 0 /\ failed = FALSE /\ ret = ""
             /\ doc = 0 /\ at = 0 /\ step = 0 /\ bad = ""
ModelNext == ((\E n \in 0..8 : Write(n)) \/ Return) /\ UNCHANGED tvars
ModelSpec == ModelInit /\ [][ModelNext]_vars
Reported == ret = "fault" => mode # "none"
Complete == ret = "nil" => took = Len(full) /\ ~failed
AtTheByte == failed => took <= (IF mode = "late" THEN Len(full) ELSE k)
MustFail == (ret = "nil" /\ mode # "none") => k >= Len(full)
ModelInv == Reported /\ Complete /\ AtTheByte /\ MustFail

----------------------------------------------------------------------------
(* Recorded runs: the pieces handed over and what the destination took.    *)
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ran == Traces[doc].runs[at]
Piece(i) == Traces[doc].chunks[Ran.log[i][1]]

TraceInit == \E d \in 1..Len(Traces) : \E r \in 1..Len(Traces[d].runs) :
                LET x == Traces[d].runs[r] IN
                /\ doc = d /\ at = r /\ step = 0 /\ bad = ""
                /\ full = Traces[d].fulls[x.full] /\ mode = x.mode /\ k = x.k
                /\ took = 0 /\ failed = FALSE /\ ret = ""

Says(what) == bad' = what /\ UNCHANGED mvars
TraceNext ==
    /\ bad = "" /\ ret = ""
    /\ UNCHANGED <<doc, at>>
    /\ step' = step + 1
    /\ IF step < Len(Ran.log)
       THEN LET p == Piece(step + 1)
                n == Len(p)
            IN IF failed
               THEN IF Ran.log[step + 1][2] > 0 THEN Says("output after the failure") ELSE Says("")
               ELSE IF took + n > Len(full) THEN Says("more than the full output")
               ELSE IF SubSeq(full, took + 1, took + n) # p THEN Says("not the full output")
               ELSE /\ Write(n)
                    /\ bad' = IF took' # took + Ran.log[step + 1][2] THEN "destination" ELSE ""
       ELSE IF ~failed /\ took # Len(full) THEN Says("incomplete")
       ELSE /\ Return
            /\ bad' = IF ret' = "nil" THEN IF Ran.ret # "nil" THEN "error without a failure" ELSE ""
                      ELSE IF Ran.ret = "nil" THEN "failure not reported"
                      ELSE IF mode # "short" /\ Ran.ret # "fault" THEN "another error than the failure" ELSE ""
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == (bad # "" \/ ret # "") => PrintT("RES " \o ToJson(<<doc, at, bad, took>>))
=============================================================================
