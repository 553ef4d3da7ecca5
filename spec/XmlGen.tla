------------------------------- MODULE XmlGen -------------------------------
(***************************************************************************)
(* Generation: the documents of the XML machine.                           *)
(*                                                                         *)
(* A document is made by appending fragments (tokens of the language, and  *)
(* pieces that are no tokens) from an alphabet, as long as the machine has *)
(* not found a mistake.  TLC explores all of them up to a length, or walks *)
(* at random; each document that is reached is printed, as the numbers of  *)
(* its fragments and the text that closes what is still open.              *)
(*                                                                         *)
(* Where fragments are smaller than tokens, the alphabet has probes: texts *)
(* that complete what was begun.  Then a text has no mistake as long as    *)
(* the machine finds none in the text with one of the probes.              *)
(*                                                                         *)
(* The alphabet is a JSON object in $ALPHA:  pre: text, frags: texts,      *)
(* probes: texts, open: the text begins with the XML declaration,          *)
(* min, max: numbers of fragments, ends: print only the ends of walks      *)
(***************************************************************************)
EXTENDS Doc, Json, IOUtils

A == JsonDeserialize(IOEnv.ALPHA)
Pre == A.pre
Frags == A.frags
NF == Len(Frags)
Probes == A.probes
NP == Len(Probes)

VARIABLES frs,   \* the fragments
          text,  \* the text
          mach,  \* the machine, which has read all of it
          probe, \* the probe that made sense, 0 if none was needed
          shut   \* what makes the text a document, or did before the mistake in it
vars == <<frs, text, mach, probe, shut>>

\* read on while there is something to read
RECURSIVE ReadOn(_, _)
ReadOn(t, m) ==
    IF Terminal(m) \/ (Len(m.in) = 1 /\ Frame(m).p > Len(t)) THEN m ELSE ReadOn(t, Step(t, m).m)

Err == [Machine0 EXCEPT !.st = "err"]
ReadAll(t) ==
    IF ~A.open THEN ReadOn(t, Machine0)
    ELSE LET o == Open(t) IN IF o.st = "ok" THEN ReadOn(o.t, Machine0) ELSE Err

RECURSIVE Try(_, _)
Try(t, i) ==
    IF i > NP THEN [m |-> Err, i |-> 0]
    ELSE LET m == ReadAll(t \o Probes[i]) IN IF m.st # "err" THEN [m |-> m, i |-> i] ELSE Try(t, i + 1)

RECURSIVE CloseTags(_)
CloseTags(s) == IF s = <<>> THEN <<>>
                ELSE <<cLt, cSlash>> \o s[Len(s)].qn \o <<cGt>> \o CloseTags(SubSeq(s, 1, Len(s) - 1))

Root == S("<r/>")
SubsetEnd == S("]>")
Closing(m, i) == (IF i = 0 THEN <<>> ELSE Probes[i]) \o
    CASE m.st = "content" -> CloseTags(m.stack)
      [] m.st = "prolog" -> Root
      [] m.st = "dtd" -> SubsetEnd \o Root
      [] OTHER -> <<>>

Show == PrintT("DOC " \o ToJson(<<frs, shut>>))

Read(t) ==
    IF NP = 0 THEN /\ mach' = ReadOn(t, mach) /\ probe' = 0
    ELSE LET m == ReadAll(t) IN
         IF m.st # "err" THEN mach' = m /\ probe' = 0
         ELSE LET r == Try(t, 1) IN mach' = r.m /\ probe' = r.i

Init == /\ frs = <<>>
        /\ text = Pre
        /\ mach = IF NP = 0 THEN ReadOn(Pre, Machine0) ELSE Machine0
        /\ probe = 0
        /\ shut = Closing(mach, 0)

Next == /\ ~Terminal(mach) \/ (NP > 0 /\ mach.st # "err")
        /\ Len(frs) < A.max
        /\ \E j \in 1..NF :
              /\ frs' = Append(frs, j)
              /\ text' = text \o Frags[j]
              /\ Read(text')
              /\ shut' = IF mach'.st = "err" THEN shut ELSE Closing(mach', probe')

Spec == Init /\ [][Next]_vars

\* evaluated in every state; says which document it is
Shown == \/ Len(frs) < A.min
         \/ A.ends /\ mach.st # "err" /\ Len(frs) < A.max   \* of walks only the ends are of interest
         \/ Show
=============================================================================
