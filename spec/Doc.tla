-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* From the bytes of a document to the text the XML machine reads: byte    *)
(* order mark, XML declaration, encoding, line ends.                       *)
(*                                                                         *)
(* Open(B) is [st, t, v, e, s]: st is "ok", "err" or "unspec", t the text  *)
(* after the XML declaration, v, e, s the version, encoding name and       *)
(* standalone status to be kept on the document.                           *)
(***************************************************************************)
EXTENDS Xml, Encodings

BOM == <<239, 187, 191>>
ERR == [st |-> "err"]
UNSPEC == [st |-> "unspec"]

Cont(b) == In(b, 128, 191)

\* what UTF-8 denotes at i: [n: number of bytes (0: ill-formed), c: character]
U8At(B, i) ==
    LET b == B[i]
        c1 == At(B, i + 1)
        c2 == At(B, i + 2)
        c3 == At(B, i + 3)
    IN IF b < 128 THEN [n |-> 1, c |-> b]
       ELSE IF In(b, 194, 223) THEN IF Cont(c1) THEN [n |-> 2, c |-> (b - 192) * 64 + c1 - 128] ELSE [n |-> 0, c |-> 0]
       ELSE IF In(b, 224, 239)
            THEN IF Cont(c1) /\ Cont(c2) /\ (b # 224 \/ c1 >= 160) /\ (b # 237 \/ c1 < 160)
                 THEN [n |-> 3, c |-> (b - 224) * 4096 + (c1 - 128) * 64 + c2 - 128] ELSE [n |-> 0, c |-> 0]
       ELSE IF In(b, 240, 244)
            THEN IF Cont(c1) /\ Cont(c2) /\ Cont(c3) /\ (b # 240 \/ c1 >= 144) /\ (b # 244 \/ c1 < 144)
                 THEN [n |-> 4, c |-> (b - 240) * 262144 + (c1 - 128) * 4096 + (c2 - 128) * 64 + c3 - 128]
                 ELSE [n |-> 0, c |-> 0]
       ELSE [n |-> 0, c |-> 0]

\* st is "ok", "err" (ill-formed) or "unspec" (U+FFFD, see DESIGN.md, or not
\* in the table of the encoding)
AllAscii(B) == Find(B, 1, LAMBDA c : c >= 128) > Len(B)

DecodeUTF8(B) ==
    IF AllAscii(B) THEN [st |-> "ok", t |-> B]
    ELSE LET first == SelectSeq(Positions(B), LAMBDA i : ~Cont(B[i]))     \* where characters begin
             c == TLCEval([k \in 1..Len(first) |-> U8At(B, first[k])])
             next(k) == IF k = Len(first) THEN Len(B) + 1 ELSE first[k + 1]
         IN IF \/ At(first, 1) # 1
               \/ \E k \in 1..Len(first) : c[k].n # next(k) - first[k]
            THEN [st |-> "err", t |-> <<>>]
            ELSE IF \E k \in 1..Len(c) : c[k].c = 65533 THEN [st |-> "unspec", t |-> <<>>]
            ELSE [st |-> "ok", t |-> TLCEval([k \in 1..Len(c) |-> c[k].c])]

\* an encoding of one byte per character; up: the characters of 128..255 (0: none)
DecodeTable(B, up) ==
    IF \A i \in 1..Len(B) : B[i] < 128 \/ up[B[i] - 127] # 0
    THEN [st |-> "ok", t |-> TLCEval([i \in 1..Len(B) |-> IF B[i] < 128 THEN B[i] ELSE up[B[i] - 127]])]
    ELSE [st |-> "unspec", t |-> <<>>]

\* an encoding where a byte >= 128 leads a pair, some of which are in tab.
\* The automaton's state: the byte that leads, what was read; bad: not in tab
PairStep(tab, a, b) ==
    IF a.bad THEN a
    ELSE IF a.lead = 0
         THEN IF b < 128 THEN [a EXCEPT !.out = Append(@, b)] ELSE [a EXCEPT !.lead = b]
    ELSE IF <<a.lead, b>> \in DOMAIN tab THEN [a EXCEPT !.lead = 0, !.out = Append(@, tab[<<a.lead, b>>])]
    ELSE [a EXCEPT !.bad = TRUE]

Pairs(B, tab) ==
    LET a == FoldLeft(LAMBDA x, b : PairStep(tab, x, b), [bad |-> FALSE, lead |-> 0, out |-> <<>>], B)
    IN [st |-> IF a.bad \/ a.lead # 0 THEN "unspec" ELSE "ok", t |-> a.out]

\* encodings which switch to pairs of ASCII bytes and back: sh.on and sh.off
\* are the switches; some are the bytes of one that is not complete yet
ShiftStep(sh, a, b) ==
    LET esc == IF a.on THEN sh.off ELSE sh.on
        p == Append(a.some, b)
    IN IF a.bad THEN a
       ELSE IF p = esc THEN [a EXCEPT !.on = ~@, !.some = <<>>]
       ELSE IF p = SubSeq(esc, 1, Len(p)) THEN [a EXCEPT !.some = p]
       ELSE IF b >= 128 \/ p[1] = esc[1] THEN [a EXCEPT !.bad = TRUE]
       ELSE IF ~a.on THEN [a EXCEPT !.out = Append(@, b)]
       ELSE IF Len(p) = 1 THEN [a EXCEPT !.some = p]
       ELSE IF p \in DOMAIN sh.tab THEN [a EXCEPT !.some = <<>>, !.out = Append(@, sh.tab[p])]
       ELSE [a EXCEPT !.bad = TRUE]

Shifted(B, sh) ==
    LET a == FoldLeft(LAMBDA x, b : ShiftStep(sh, x, b), [bad |-> FALSE, on |-> FALSE, some |-> <<>>, out |-> <<>>], B)
    IN [st |-> IF a.bad \/ a.on \/ a.some # <<>> THEN "unspec" ELSE "ok", t |-> a.out]

\* enc: the encoding's name in lower case
Decode(B, enc) ==
    IF enc \in Utf8Names THEN DecodeUTF8(B)
    ELSE IF enc \in DOMAIN ByteTab THEN DecodeTable(B, ByteTab[enc])
    ELSE IF enc \in DOMAIN PairTab THEN Pairs(B, PairTab[enc])
    ELSE IF enc \in DOMAIN ShiftTab THEN Shifted(B, ShiftTab[enc])
    ELSE [st |-> "unspec", t |-> <<>>]

\* the first bytes of encodings that are not supported
OtherEncoding(B) ==
    \/ At(B, 1) \in {254, 255} /\ At(B, 2) \in {254, 255}
    \/ Has(B, 1, <<76, 111, 167, 148>>)
    \/ \E i \in 1..4 : i <= Len(B) /\ B[i] = 0

\* the declared encoding begins after the XML declaration
OpenDecl(B, x) ==
    LET enc == IF x.e = <<>> THEN sUtf8 ELSE x.e
        r == Decode(SubSeq(B, x.p, Len(B)), LowerT(enc))
    IN IF r.st # "ok" THEN [st |-> r.st]
       ELSE [st |-> "ok", t |-> FixLines(r.t), v |-> x.v, e |-> enc, s |-> x.s]

Open(B) ==
    LET bom == Has(B, 1, BOM)
        C == IF bom THEN SubSeq(B, 4, Len(B)) ELSE B
    IN IF OtherEncoding(B) THEN UNSPEC
       ELSE IF HasXmlDecl(C)
            THEN LET x == XmlDecl(C) IN
                 IF ~x.ok THEN ERR
                 ELSE IF ~Has(x.v, 1, sOneDot) THEN UNSPEC
                 ELSE IF bom /\ x.e # <<>> /\ LowerT(x.e) \notin Utf8Names THEN UNSPEC
                 ELSE OpenDecl(C, x)
       ELSE OpenDecl(C, [p |-> 1, v |-> sOneZero, e |-> <<>>, s |-> ""])
=============================================================================
