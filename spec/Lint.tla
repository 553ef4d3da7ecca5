-------------------------------- MODULE Lint --------------------------------
(***************************************************************************)
(* helium-lint: a goroutine opens the files and hands them over, the main  *)
(* one reads, parses and prints them.  The two meet at an unbuffered       *)
(* channel; an error of opening waits in a channel of its own until the    *)
(* input is done.  Every schedule ends, and all schedules of the same      *)
(* files have the same outcome, which is the one Expected says (C16).      *)
(*                                                                         *)
(* Files are: good ones "g1", "g2" ..., "bad" (not well-formed), "missing" *)
(* (cannot be opened), "dir" (opened, but not read).                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Kinds == JsonDeserialize(IOEnv.KINDS)       \* [good: ..., other: ..., max: n]
Good == {Kinds.good[i] : i \in 1..Len(Kinds.good)}
All == Good \cup {Kinds.other[i] : i \in 1..Len(Kinds.other)}

VARIABLES
    files,
    opener,   \* [pc: "open", "send" or "done", i: the file it is at]
    errs,     \* what waits in the error channel
    main,     \* [pc: "receive", "read", "last" or "ended", f: the file it has]
    out,      \* what was printed
    status,   \* exit status, 9 while running
    msg       \* was there a message
vars == <<files, opener, errs, main, out, status, msg>>

Lists == UNION {[1..n -> All] : n \in 1..Kinds.max}

Init == /\ files \in Lists
        /\ opener = [pc |-> "open", i |-> 1]
        /\ errs = <<>>
        /\ main = [pc |-> "receive", f |-> ""]
        /\ out = <<>> /\ status = 9 /\ msg = FALSE

Running == main.pc # "ended"

Opens ==
    /\ Running /\ opener.pc = "open"
    /\ IF opener.i > Len(files) THEN opener' = [opener EXCEPT !.pc = "done"] /\ UNCHANGED errs
       ELSE IF files[opener.i] = "missing"
            THEN opener' = [opener EXCEPT !.pc = "done"] /\ errs' = Append(errs, opener.i)
       ELSE opener' = [opener EXCEPT !.pc = "send"] /\ UNCHANGED errs
    /\ UNCHANGED <<files, main, out, status, msg>>

Handover ==
    /\ opener.pc = "send" /\ main.pc = "receive"
    /\ main' = [pc |-> "read", f |-> files[opener.i]]
    /\ opener' = [pc |-> "open", i |-> opener.i + 1]
    /\ UNCHANGED <<files, errs, out, status, msg>>

End(s, m) == status' = s /\ msg' = m /\ main' = [pc |-> "ended", f |-> ""]

Reads ==
    /\ main.pc = "read"
    /\ IF main.f \in Good THEN out' = Append(out, main.f) /\ main' = [pc |-> "receive", f |-> ""] /\ UNCHANGED <<status, msg>>
       ELSE End(1, TRUE) /\ UNCHANGED out
    /\ UNCHANGED <<files, opener, errs>>

\* the channel is closed
NoMore ==
    /\ main.pc = "receive" /\ opener.pc = "done"
    /\ main' = [main EXCEPT !.pc = "last"]
    /\ UNCHANGED <<files, opener, errs, out, status, msg>>

LastLook ==
    /\ main.pc = "last"
    /\ IF errs # <<>> THEN End(1, TRUE) ELSE End(0, FALSE)
    /\ UNCHANGED <<files, opener, errs, out>>

Next == Opens \/ Handover \/ Reads \/ NoMore \/ LastLook
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
FirstBad(fs) == IF \E i \in 1..Len(fs) : fs[i] \notin Good
                THEN CHOOSE i \in 1..Len(fs) : fs[i] \notin Good /\ \A j \in 1..(i - 1) : fs[j] \in Good
                ELSE Len(fs) + 1
Expected(fs) == [out |-> SubSeq(fs, 1, FirstBad(fs) - 1),
                 status |-> IF FirstBad(fs) > Len(fs) THEN 0 ELSE 1,
                 msg |-> FirstBad(fs) <= Len(fs)]

Outcome == ~Running => /\ [out |-> out, status |-> status, msg |-> msg] = Expected(files)
                       /\ PrintT("OUT " \o ToJson([files |-> files, out |-> out, status |-> status, msg |-> msg]))
\* only what comes before the first bad file is ever printed
Prefix == /\ Len(out) < FirstBad(files)
          /\ \A i \in 1..Len(out) : out[i] = files[i]
NoSenderLost == Len(errs) <= 1
Ends == <>(main.pc = "ended")
=============================================================================
