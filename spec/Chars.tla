------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are code points (naturals); texts are sequences of them.     *)
(* S("...") writes a text as an ASCII literal.  0 stands for "past the end *)
(* of the text": it is not an XML character, so it fails every class.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]

S(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

\* a text that is all ASCII back as a string, for messages
Str(t) == [i \in 1..Len(t) |-> t[i]]

TAB == 9   LF == 10   CR == 13   SP == 32
cBang == 33  cQuot == 34  cHash == 35  cPerc == 37  cAmp == 38  cApos == 39
cLPar == 40  cRPar == 41  cStar == 42  cPlus == 43  cComma == 44  cDash == 45
cDot == 46   cSlash == 47  cColon == 58  cSemi == 59  cLt == 60  cEq == 61
cGt == 62    cQm == 63   cLBr == 91   cRBr == 93   cX == 120  cBar == 124

(* [2] Char, [3] S *)
IsChar(c) ==
    IF c < 55296 THEN c >= 32 \/ c = 10 \/ c = 9 \/ c = 13
    ELSE (c >= 57344 /\ c <= 65533) \/ (c >= 65536 /\ c <= 1114111)

IsBlank(c) == c = 32 \/ c = 10 \/ c = 9 \/ c = 13

(* [4] NameStartChar, [4a] NameChar of XML 1.0, Fifth Edition *)
AsciiName(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c = 58
StartTab == [c \in 0..127 |-> AsciiName(c)]
NameTab  == [c \in 0..127 |-> AsciiName(c) \/ (c >= 48 /\ c <= 57) \/ c = 45 \/ c = 46]

In(c, a, b) == c >= a /\ c <= b
IsNameStart(c) ==
    IF c < 128 THEN StartTab[c]
    ELSE \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 767)
         \/ In(c, 880, 893) \/ In(c, 895, 8191) \/ In(c, 8204, 8205)
         \/ In(c, 8304, 8591) \/ In(c, 11264, 12271) \/ In(c, 12289, 55295)
         \/ In(c, 63744, 64975) \/ In(c, 65008, 65533) \/ In(c, 65536, 983039)
IsNameChar(c) ==
    IF c < 128 THEN NameTab[c]
    ELSE IsNameStart(c) \/ c = 183 \/ In(c, 768, 879) \/ In(c, 8255, 8256)

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == In(c, 97, 122) \/ In(c, 65, 90)
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF In(c, 97, 102) THEN c - 87
             ELSE IF In(c, 65, 70) THEN c - 55 ELSE 99
Lower(c) == IF In(c, 65, 90) THEN c + 32 ELSE c
LowerT(t) == TLCEval([i \in 1..Len(t) |-> Lower(t[i])])

(***************************************************************************)
(* Scanning a text T from position p.                                      *)
(***************************************************************************)
At(T, p) == IF p <= Len(T) THEN T[p] ELSE 0

Has(T, p, lit) == /\ p + Len(lit) - 1 <= Len(T)
                  /\ \A i \in 1..Len(lit) : T[p + i - 1] = lit[i]

\* the first position from p on where Test holds, past the end if there is none
Find(T, p, Test(_)) ==
    IF p > Len(T) THEN p
    ELSE IF Test(T[p]) THEN p
    ELSE LET f == SelectInSubSeq(T, p, Len(T), Test) IN IF f = 0 THEN Len(T) + 1 ELSE f

NotBlank(c) == ~IsBlank(c)
NotNameChar(c) == ~IsNameChar(c)
NotNCChar(c) == c = cColon \/ ~IsNameChar(c)
SkipB(T, p) == Find(T, p, NotBlank)
NameEnd(T, p) == Find(T, p, NotNameChar)
NCEnd(T, p) == Find(T, p, NotNCChar)

\* the position after the Name / NCName that starts at p, or p if none does
Name(T, p) == IF IsNameStart(At(T, p)) THEN NameEnd(T, p + 1) ELSE p
NCName(T, p) == IF IsNameStart(At(T, p)) /\ At(T, p) # cColon THEN NCEnd(T, p + 1) ELSE p

\* the part of T from p up to (not including) q
Cut(T, p, q) == SubSeq(T, p, q - 1)

IsNameText(t) == Len(t) > 0 /\ IsNameStart(t[1]) /\ \A i \in 2..Len(t) : IsNameChar(t[i])

Pos(t, c) == IF \E i \in 1..Len(t) : t[i] = c
             THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in 1..(i-1) : t[j] # c
             ELSE 0

Positions(t) == [i \in 1..Len(t) |-> i]

AllBlank(t) == \A i \in 1..Len(t) : IsBlank(t[i])

Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

(* Literals.  They are definitions of their own so that TLC evaluates each once. *)
sFixed == S("#FIXED")
sImplied == S("#IMPLIED")
sRequired == S("#REQUIRED")
sAmpHash == S("&#")
sSlashes == S("//")
sOneDot == S("1.")
sOneZero == S("1.0")
sComment == S("<!--")
sAttlist == S("<!ATTLIST")
sDoctype == S("<!DOCTYPE")
sElement == S("<!ELEMENT")
sEntity == S("<!ENTITY")
sNotation == S("<!NOTATION")
sCData == S("<![CDATA[")
sPI == S("<?")
sXmlDecl == S("<?xml")
sAny == S("ANY")
sEmpty == S("EMPTY")
sNOTATION == S("NOTATION")
sPublic == S("PUBLIC")
sNDATA == S("NDATA")

\* [13] PubidChar
PubidPunct == TLCEval({S("-'()+,./:=?;!*#@$_%")[i] : i \in 1..19})
IsPubid(c) == c \in {SP, CR, LF} \/ IsAlpha(c) \/ IsDigit(c) \/ c \in PubidPunct
sSystem == S("SYSTEM")
sEncoding == S("encoding")
sNo == S("no")
sYes == S("yes")
sStandalone == S("standalone")
sUtf8 == S("utf8")
sVersion == S("version")
sXmlId == S("xml:id")
=============================================================================
