-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* The XML machine: what helium promises to do with a document.            *)
(*                                                                         *)
(* The machine reads a text token by token.  Its state is a record m:      *)
(*   st     "prolog" "dtd" "content" "epilog", or an outcome: "done",      *)
(*          "err" (the document must be rejected), "unspec" (a feature     *)
(*          outside the supported set: nothing is promised)                *)
(*   in     stack of inputs: the document, then the entities whose         *)
(*          replacement text is being read.  [n: entity, p: position,      *)
(*          base: number of elements open when it was entered]             *)
(*   stack  open elements, ns: namespace declarations in scope             *)
(*   d      what the document type declares                                *)
(*   ext    whether external identifiers are promised: helium writes them, *)
(*          but does not read them                                         *)
(* Each token action returns the next machine and the events it reports.   *)
(***************************************************************************)
EXTENDS Chars

XMLNS_URI == S("http://www.w3.org/XML/1998/namespace")
XMLNSNS_URI == S("http://www.w3.org/2000/xmlns/")
sXml == S("xml")
sXmlns == S("xmlns")
LAmp38 == S("&#38;")

None == [x \in {} |-> x]

EmptyDTD == [name |-> <<>>, ents |-> None, pents |-> {}, elems |-> {},
             atts |-> None, defs |-> None, list |-> <<>>]

Machine0 == [st |-> "prolog",
             in |-> <<[n |-> <<>>, p |-> 1, base |-> 0]>>,
             stack |-> <<>>, ns |-> <<>>, dt |-> FALSE, d |-> EmptyDTD, ext |-> FALSE]

Res(m, ev) == [m |-> m, ev |-> ev]
Bad(m) == Res([m EXCEPT !.st = "err"], <<>>)
BadAfter(m, ev) == Res([m EXCEPT !.st = "err"], ev)
Unspec(m) == Res([m EXCEPT !.st = "unspec"], <<>>)

Frame(m) == m.in[Len(m.in)]
TextOf(txt, m) == LET n == Frame(m).n IN IF n = <<>> THEN txt ELSE m.d.ents[n]
Goto(m, p) == [m EXCEPT !.in[Len(m.in)].p = p]
Terminal(m) == m.st \in {"done", "err", "unspec"}

NO == [ok |-> FALSE]

----------------------------------------------------------------------------
(* References *)

RECURSIVE Num(_, _, _, _)
Num(T, p, base, acc) ==
    LET v == HexVal(At(T, p)) IN
    IF v >= base THEN <<p, acc>>
    ELSE Num(T, p + 1, base, IF acc > 1114111 THEN acc ELSE acc * base + v)

\* [66] CharRef at p, where T has "&#"
CharRef(T, p) ==
    LET hex == At(T, p + 2) = cX
        s == IF hex THEN p + 3 ELSE p + 2
        r == Num(T, s, IF hex THEN 16 ELSE 10, 0)
    IN IF r[1] = s \/ At(T, r[1]) # cSemi \/ ~IsChar(r[2]) THEN NO
       ELSE [ok |-> TRUE, p |-> r[1] + 1, c |-> r[2]]

\* [68] EntityRef at p, where T has "&"
EntRef(T, p) ==
    LET e == Name(T, p + 1)
    IN IF e = p + 1 \/ At(T, e) # cSemi THEN NO
       ELSE [ok |-> TRUE, p |-> e + 1, n |-> Cut(T, p + 1, e)]

PredefTab == (S("lt") :> 60) @@ (S("gt") :> 62) @@ (S("amp") :> 38) @@
             (S("apos") :> 39) @@ (S("quot") :> 34)
PredefNames == DOMAIN PredefTab

\* may entity n be referred to in an attribute value: declared, no "<" in what
\* it stands for, no loop, every reference in it well formed
RECURSIVE AttEntOK(_, _, _), AttTextOK(_, _, _, _)
AttEntOK(n, ents, seen) ==
    n \in PredefNames \/ (/\ n \in DOMAIN ents /\ n \notin seen
                          /\ AttTextOK(ents[n], 1, ents, seen \cup {n}))
AttTextOK(T, p0, ents, seen) ==
    LET p == Find(T, p0, LAMBDA c : c = cLt \/ c = cAmp) IN
    IF p > Len(T) THEN TRUE
    ELSE IF T[p] = cLt THEN FALSE
    ELSE IF At(T, p + 1) = cHash
         THEN LET r == CharRef(T, p) IN r.ok /\ AttTextOK(T, r.p, ents, seen)
         ELSE LET r == EntRef(T, p) IN
              r.ok /\ AttEntOK(r.n, ents, seen) /\ AttTextOK(T, r.p, ents, seen)

(* The value of an attribute, from p (after the opening quote q).  It is   *)
(* kept with references to general entities in place; a literal ampersand  *)
(* is kept as the reference &#38; so that the two cannot be confused.      *)
RECURSIVE AttV(_, _, _, _, _)
AttV(T, p0, q, ents, out0) ==
    LET p == Find(T, p0, LAMBDA c : c = q \/ c = cLt \/ c = cAmp \/ c < SP \/ ~IsChar(c))
        c == At(T, p)
        out == out0 \o Cut(T, p0, p)
    IN
    IF c = q THEN [ok |-> TRUE, p |-> p + 1, v |-> out]
    ELSE IF c = cLt \/ ~IsChar(c) THEN NO
    ELSE IF IsBlank(c) THEN AttV(T, p + 1, q, ents, Append(out, SP))
    ELSE IF At(T, p + 1) = cHash
         THEN LET r == CharRef(T, p) IN
              IF ~r.ok THEN NO
              ELSE AttV(T, r.p, q, ents, IF r.c = cAmp THEN out \o LAmp38 ELSE Append(out, r.c))
    ELSE LET r == EntRef(T, p) IN
         IF ~r.ok THEN NO
         ELSE IF r.n \in PredefNames
              THEN AttV(T, r.p, q, ents, IF PredefTab[r.n] = cAmp THEN out \o LAmp38
                                         ELSE Append(out, PredefTab[r.n]))
         ELSE IF ~AttEntOK(r.n, ents, {}) THEN NO
         ELSE AttV(T, r.p, q, ents, out \o <<cAmp>> \o r.n \o <<cSemi>>)

AttValue(T, p, ents) ==
    LET q == At(T, p) IN
    IF q = cQuot \/ q = cApos THEN AttV(T, p + 1, q, ents, <<>>) ELSE NO

\* what a value stands for with all its references replaced
RECURSIVE Expand(_, _, _, _)
Expand(T, p0, ents, out0) ==
    LET p == Find(T, p0, LAMBDA c : c = cAmp)
        out == out0 \o Cut(T, p0, p)
    IN
    IF p > Len(T) THEN out
    ELSE IF At(T, p + 1) = cHash
         THEN LET r == CharRef(T, p) IN Expand(T, r.p, ents, Append(out, r.c))
    ELSE LET r == EntRef(T, p) IN
         Expand(T, r.p, ents,
                IF r.n \in PredefNames THEN Append(out, PredefTab[r.n])
                ELSE out \o Expand(ents[r.n], 1, ents, <<>>))

\* the further normalization of values that are not of type CDATA
Normalize(t) ==     \* the spaces to keep are those between two tokens
    LET keep == SelectSeq(Positions(t), LAMBDA i : t[i] # SP \/ (i < Len(t) /\ t[i + 1] # SP /\ \E j \in 1..(i - 1) : t[j] # SP))
    IN TLCEval([k \in 1..Len(keep) |-> t[keep[k]]])

----------------------------------------------------------------------------
(* Names with namespaces *)

QName(T, p) ==
    LET e == NCName(T, p) IN
    IF e = p THEN NO
    ELSE IF At(T, e) # cColon THEN [ok |-> TRUE, p |-> e, pre |-> <<>>, loc |-> Cut(T, p, e), qn |-> Cut(T, p, e)]
    ELSE LET f == NCName(T, e + 1) IN
         IF f = e + 1 THEN NO
         ELSE [ok |-> TRUE, p |-> f, pre |-> Cut(T, p, e), loc |-> Cut(T, e + 1, f), qn |-> Cut(T, p, f)]

RECURSIVE NSFind(_, _, _)
NSFind(ns, i, pre) == IF i = 0 THEN <<>> ELSE IF ns[i][1] = pre THEN ns[i][2] ELSE NSFind(ns, i - 1, pre)
Lookup(ns, pre) == IF pre = sXml THEN XMLNS_URI ELSE NSFind(ns, Len(ns), pre)

SplitQ(n) == LET i == Pos(n, cColon) IN
             IF i <= 1 THEN [pre |-> <<>>, loc |-> n]
             ELSE [pre |-> SubSeq(n, 1, i - 1), loc |-> SubSeq(n, i + 1, Len(n))]

IsNSAtt(a) == a.pre = sXmlns \/ (a.pre = <<>> /\ a.loc = sXmlns)
NSPrefixOf(a) == IF a.pre = <<>> THEN <<>> ELSE a.loc

\* namespace names about which there is no doubt that they are URI references
\* (helium rejects some that are not, and which ones is not specified)
uriSafe == {S("/")[1], S(".")[1], S("-")[1], S("_")[1], S("#")[1], S("?")[1], S("=")[1], S("&")[1]}
SafeURI(u) ==
    \/ \A i \in 1..Len(u) : IsAlpha(u[i]) \/ IsDigit(u[i]) \/ u[i] \in uriSafe
    \/ LET c == Pos(u, cColon) IN
       /\ c > 1
       /\ \A i \in 1..(c - 1) : IsAlpha(u[i])
       /\ \A i \in (c + 1)..Len(u) : IsAlpha(u[i]) \/ IsDigit(u[i]) \/ u[i] \in uriSafe \/ u[i] = cColon
       /\ ~(Has(u, c + 1, sSlashes) /\ \E i \in (c + 3)..Len(u) : u[i] = cColon)

----------------------------------------------------------------------------
(* Tokens of element content *)

ContentKind(T, p) ==
    IF p > Len(T) THEN "end"
    ELSE IF T[p] = cLt
         THEN LET c == At(T, p + 1) IN
              IF c = cSlash THEN "etag"
              ELSE IF c = cQm THEN "pi"
              ELSE IF c = cBang
                   THEN IF Has(T, p, sComment) THEN "comment"
                        ELSE IF Has(T, p, sCData) THEN "cdata"
                        ELSE IF Has(T, p, sDoctype) THEN "doctype" ELSE "bad"
              ELSE "stag"
    ELSE IF T[p] = cAmp THEN IF At(T, p + 1) = cHash THEN "charref" ELSE "entref"
    ELSE "text"

(* character data: up to markup, a reference, something that is no character, or "]]>" *)
RECURSIVE TextEnd(_, _)
TextEnd(T, p0) ==
    LET p == Find(T, p0, LAMBDA c : c = cLt \/ c = cAmp \/ c = cRBr \/ ~IsChar(c)) IN
    IF At(T, p) = cRBr /\ ~(At(T, p + 1) = cRBr /\ At(T, p + 2) = cGt) THEN TextEnd(T, p + 1) ELSE p

Ch(t) == [k |-> "ch", t |-> t]

DoText(T, m) ==
    LET p == Frame(m).p
        e == TextEnd(T, p)
    IN IF e = p THEN Bad(m) ELSE Res(Goto(m, e), <<Ch(Cut(T, p, e))>>)

DoCharRef(T, m) ==
    LET r == CharRef(T, Frame(m).p) IN
    IF ~r.ok THEN Bad(m) ELSE Res(Goto(m, r.p), <<Ch(<<r.c>>)>>)

(* the end of a run of characters closed by lit *)
RECURSIVE RunEnd(_, _, _)
RunEnd(T, p0, lit) ==
    LET p == Find(T, p0, LAMBDA c : c = lit[1] \/ ~IsChar(c)) IN
    IF Has(T, p, lit) THEN p
    ELSE IF ~IsChar(At(T, p)) THEN 0
    ELSE RunEnd(T, p + 1, lit)

sCDEnd == S("]]>")
sPIEnd == S("?>")
sDD == S("--")

DoCData(T, m) ==
    LET p == Frame(m).p + 9
        e == RunEnd(T, p, sCDEnd)
        bad == Find(T, p, LAMBDA c : ~IsChar(c))
    IN IF e = 0 THEN BadAfter(m, <<[k |-> "cd", t |-> Cut(T, p, bad)]>>)  \* its beginning may have been reported
       ELSE Res(Goto(m, e + 3), <<[k |-> "cd", t |-> Cut(T, p, e)]>>)

\* comments and PIs are the same everywhere; [ok, p, ev]
Comment(T, p) ==
    LET e == RunEnd(T, p + 4, sDD) IN
    IF e = 0 \/ At(T, e + 2) # cGt THEN NO
    ELSE [ok |-> TRUE, p |-> e + 3, ev |-> [k |-> "co", t |-> Cut(T, p + 4, e)]]

PI(T, p) ==
    LET e == Name(T, p + 2)
        n == Cut(T, p + 2, e)
    IN IF e = p + 2 \/ LowerT(n) = sXml \/ Pos(n, cColon) # 0 THEN NO
       ELSE IF Has(T, e, sPIEnd) THEN [ok |-> TRUE, p |-> e + 2, ev |-> [k |-> "pi", n |-> n, t |-> <<>>]]
       ELSE IF ~IsBlank(At(T, e)) THEN NO
       ELSE LET b == SkipB(T, e)
                f == RunEnd(T, b, sPIEnd)
            IN IF f = 0 THEN NO
               ELSE [ok |-> TRUE, p |-> f + 2, ev |-> [k |-> "pi", n |-> n, t |-> Cut(T, b, f)]]

DoSimple(m, r) == IF r.ok THEN Res(Goto(m, r.p), <<r.ev>>) ELSE Bad(m)
DoComment(T, m) == DoSimple(m, Comment(T, Frame(m).p))
DoPI(T, m) == DoSimple(m, PI(T, Frame(m).p))

(* A start tag.  The attributes from p on, as written. *)
AttType(d, en, an) == IF <<en, an>> \in DOMAIN d.atts THEN d.atts[<<en, an>>] ELSE "CDATA"

RECURSIVE TagAtts(_, _, _, _, _)
TagAtts(T, p, d, en, acc) ==
    LET p1 == SkipB(T, p)
        c == At(T, p1)
    IN IF c = cGt THEN [ok |-> TRUE, p |-> p1 + 1, empty |-> FALSE, as |-> acc]
       ELSE IF c = cSlash /\ At(T, p1 + 1) = cGt THEN [ok |-> TRUE, p |-> p1 + 2, empty |-> TRUE, as |-> acc]
       ELSE IF p1 = p THEN NO
       ELSE LET q == QName(T, p1) IN
            IF ~q.ok THEN NO
            ELSE LET p2 == SkipB(T, q.p) IN
                 IF At(T, p2) # cEq THEN NO
                 ELSE LET v == AttValue(T, SkipB(T, p2 + 1), d.ents) IN
                      IF ~v.ok THEN NO
                      ELSE TagAtts(T, v.p, d, en,
                              Append(acc, [pre |-> q.pre, loc |-> q.loc, qn |-> q.qn,
                                           v |-> IF AttType(d, en, q.qn) = "CDATA" THEN v.v ELSE Normalize(v.v)]))

\* may a declaration xmlns[:pre]="u" be made
NSDeclOK(pre, u) ==
    IF pre = <<>> THEN u # XMLNS_URI /\ u # XMLNSNS_URI
    ELSE IF pre = sXml THEN u = XMLNS_URI
    ELSE pre # sXmlns /\ u # <<>> /\ u # XMLNS_URI /\ u # XMLNSNS_URI

NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

DoStartTag(T, m) ==
    LET p == Frame(m).p
        q == QName(T, p + 1)
        t == TagAtts(T, q.p, m.d, q.qn, <<>>)
    IN
    IF ~q.ok \/ ~t.ok THEN Bad(m)
    ELSE
    LET ents == m.d.ents
        NSOf(a) == <<NSPrefixOf(a), Expand(a.v, 1, ents, <<>>)>>
        wns == LET s == SelectSeq(t.as, IsNSAtt) IN TLCEval([i \in 1..Len(s) |-> NSOf(s[i])])   \* declarations written
        was == SelectSeq(t.as, LAMBDA a : ~IsNSAtt(a))
        wnames == {was[i].qn : i \in 1..Len(was)}
        wpre == {wns[i][1] : i \in 1..Len(wns)}
        defs == IF q.qn \in DOMAIN m.d.defs THEN m.d.defs[q.qn] ELSE <<>>
        dns == LET s == SelectSeq(defs, LAMBDA a : IsNSAtt(a) /\ NSPrefixOf(a) \notin wpre)
               IN TLCEval([i \in 1..Len(s) |-> NSOf(s[i])])
        das == SelectSeq(defs, LAMBDA a : ~IsNSAtt(a) /\ a.qn \notin wnames)
        decl == SelectSeq(wns \o dns, LAMBDA x : x[1] # sXml)   \* xml is bound anyway
        ns2 == m.ns \o decl
        uri == Lookup(ns2, q.pre)
        all == was \o das
        AttURI(a) == IF a.pre = <<>> THEN <<>> ELSE Lookup(ns2, a.pre)
        exp == TLCEval([i \in 1..Len(all) |-> IF all[i].pre = <<>> THEN <<all[i].qn>>
                                              ELSE <<AttURI(all[i]), all[i].loc>>])
        se == [k |-> "se", l |-> q.loc, p |-> q.pre, u |-> uri, ns |-> decl,
               at |-> TLCEval([i \in 1..Len(was) |-> [p |-> was[i].pre, l |-> was[i].loc, v |-> was[i].v]]),
               df |-> TLCEval([i \in 1..Len(das) |-> [p |-> das[i].pre, l |-> das[i].loc, v |-> das[i].v]])]
        ee == [k |-> "ee", l |-> q.loc, p |-> q.pre, u |-> uri]
        open == [qn |-> q.qn, l |-> q.loc, p |-> q.pre, u |-> uri, nn |-> Len(decl)]
        m1 == [Goto(m, t.p) EXCEPT !.st = "content"]
    IN
    IF \/ \E i \in 1..Len(wns) : ~NSDeclOK(wns[i][1], wns[i][2])
       \/ ~NoDup(TLCEval([i \in 1..Len(wns) |-> wns[i][1]]))
       \/ ~NoDup(TLCEval([i \in 1..Len(was) |-> was[i].qn]))
       \/ q.pre = sXmlns
       \/ (q.pre # <<>> /\ uri = <<>>)
       \/ \E i \in 1..Len(all) : all[i].pre # <<>> /\ AttURI(all[i]) = <<>>
       \/ ~NoDup(SubSeq(exp, 1, Len(was)))
    THEN Bad(m)
    ELSE IF \/ \E i \in 1..Len(decl) : decl[i][1] # <<>> /\ ~SafeURI(decl[i][2])
            \/ \E i \in 1..Len(dns) : ~NSDeclOK(dns[i][1], dns[i][2])
            \/ ~NoDup(exp)    \* only together with defaults
    THEN Unspec(m)
    ELSE IF t.empty
         THEN Res([m1 EXCEPT !.st = IF m.stack = <<>> THEN "epilog" ELSE "content"], <<se, ee>>)
         ELSE Res([m1 EXCEPT !.stack = Append(m.stack, open), !.ns = ns2], <<se>>)

DoEndTag(T, m) ==
    LET f == Frame(m)
        top == m.stack[Len(m.stack)]
        e == SkipB(T, f.p + 2 + Len(top.qn))
    IN IF Len(m.stack) = f.base \/ ~Has(T, f.p + 2, top.qn) \/ At(T, e) # cGt THEN Bad(m)
       ELSE LET st2 == SubSeq(m.stack, 1, Len(m.stack) - 1) IN
            Res([Goto(m, e + 1) EXCEPT !.stack = st2,
                                       !.ns = SubSeq(m.ns, 1, Len(m.ns) - top.nn),
                                       !.st = IF st2 = <<>> THEN "epilog" ELSE "content"],
                <<[k |-> "ee", l |-> top.l, p |-> top.p, u |-> top.u]>>)

MaxEntityDepth == 40

DoEntRef(T, m) ==
    LET r == EntRef(T, Frame(m).p) IN
    IF ~r.ok THEN Bad(m)
    ELSE IF r.n \in PredefNames THEN Res(Goto(m, r.p), <<Ch(<<PredefTab[r.n]>>)>>)
    ELSE IF r.n \notin DOMAIN m.d.ents THEN Bad(m)
    ELSE IF \E i \in 2..Len(m.in) : m.in[i].n = r.n THEN Bad(m)
    ELSE IF Len(m.in) > MaxEntityDepth \/ Pos(m.d.ents[r.n], 65533) # 0 THEN Unspec(m)
    ELSE Res([Goto(m, r.p) EXCEPT !.in = Append(@, [n |-> r.n, p |-> 1, base |-> Len(m.stack)])], <<>>)

\* the end of the input on top
DoEnd(m) ==
    LET f == Frame(m) IN
    IF Len(m.in) = 1 THEN Bad(m)            \* the document ends inside its root element
    ELSE IF Len(m.stack) # f.base THEN Bad(m)  \* the entity is not balanced
    ELSE Res([m EXCEPT !.in = SubSeq(@, 1, Len(@) - 1)], <<[k |-> "rf", n |-> f.n]>>)

----------------------------------------------------------------------------
(* The document type *)

\* [46-51] content specifications: [k, c (children) or n (name), o], where
\* o is the occurrence 0 once 1 "?" 2 "*" 3 "+"
OccAt(T, p) == LET c == At(T, p) IN
    IF c = cQm THEN 1 ELSE IF c = cStar THEN 2 ELSE IF c = cPlus THEN 3 ELSE 0
AfterOcc(T, p) == IF OccAt(T, p) = 0 THEN p ELSE p + 1

RECURSIVE Cp(_, _), Group(_, _, _, _)
Cp(T, p) ==
    IF At(T, p) = cLPar
    THEN LET f == Cp(T, SkipB(T, p + 1)) IN IF ~f.ok THEN NO ELSE Group(T, SkipB(T, f.p), 0, <<f.a>>)
    ELSE LET e == Name(T, p) IN
         IF e = p THEN NO
         ELSE [ok |-> TRUE, p |-> AfterOcc(T, e), a |-> [k |-> "el", n |-> Cut(T, p, e), o |-> OccAt(T, e)]]
Group(T, p, sep, acc) ==     \* p: after a particle and blanks
    LET c == At(T, p) IN
    IF c = cRPar
    THEN [ok |-> TRUE, p |-> AfterOcc(T, p + 1),
          a |-> [k |-> IF sep = cBar THEN "alt" ELSE "seq", c |-> acc, o |-> OccAt(T, p + 1)]]
    ELSE IF (c = cComma \/ c = cBar) /\ (sep = 0 \/ sep = c)
    THEN LET f == Cp(T, SkipB(T, p + 1)) IN
         IF ~f.ok THEN NO ELSE Group(T, SkipB(T, f.p), c, Append(acc, f.a))
    ELSE NO

RECURSIVE MixedNames(_, _, _)
MixedNames(T, p, acc) ==   \* p: after a name (or #PCDATA) and blanks
    IF At(T, p) = cRPar /\ (acc = <<>> \/ At(T, p + 1) = cStar)
    THEN [ok |-> TRUE, p |-> IF At(T, p + 1) = cStar THEN p + 2 ELSE p + 1, a |-> [k |-> "mixed", c |-> acc]]
    ELSE IF At(T, p) # cBar THEN NO
    ELSE LET b == SkipB(T, p + 1)
             e == Name(T, b)
         IN IF e = b THEN NO ELSE MixedNames(T, SkipB(T, e), Append(acc, Cut(T, b, e)))

sPCDATA == S("#PCDATA")
ContentSpec(T, p) ==
    IF Has(T, p, sEmpty) THEN [ok |-> TRUE, p |-> p + 5, a |-> [k |-> "EMPTY"]]
    ELSE IF Has(T, p, sAny) THEN [ok |-> TRUE, p |-> p + 3, a |-> [k |-> "ANY"]]
    ELSE IF At(T, p) # cLPar THEN NO
    ELSE LET b == SkipB(T, p + 1) IN
         IF Has(T, b, sPCDATA) THEN MixedNames(T, SkipB(T, b + 7), <<>>) ELSE Cp(T, p)

\* Two content models that differ only in redundant grouping, or in
\* occurrences that a repeated choice makes redundant, are the same model.
OccMul(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN a ELSE 2
RECURSIVE Norm(_), Flat(_, _), FlatAll(_), SomeOpt(_)
Flat(k, c) ==    \* the children of a group, with inner groups of the same kind dissolved
    IF c = <<>> THEN <<>>
    ELSE (IF c[1].k = k /\ c[1].o = 0 THEN c[1].c ELSE <<c[1]>>) \o Flat(k, Tail(c))
FlatAll(c) ==    \* ... of a repeated choice, with inner choices dissolved
    IF c = <<>> THEN <<>>
    ELSE (IF c[1].k = "alt" THEN FlatAll(c[1].c) ELSE <<c[1]>>) \o FlatAll(Tail(c))
SomeOpt(c) == \E i \in 1..Len(c) : c[i].o \in {1, 2} \/ (c[i].k = "alt" /\ SomeOpt(c[i].c))
Norm(a) ==
    IF a.k \notin {"seq", "alt"} THEN a
    ELSE LET kids == TLCEval([i \in 1..Len(a.c) |-> Norm(a.c[i])]) IN
         IF Len(kids) = 1 THEN Norm([kids[1] EXCEPT !.o = OccMul(@, a.o)])
         ELSE IF a.k = "alt" /\ a.o \in {2, 3}
              THEN LET flat == FlatAll(kids)
                       bare == TLCEval([i \in 1..Len(flat) |-> [flat[i] EXCEPT !.o = 0]])
                   IN [k |-> "alt", c |-> bare, o |-> IF SomeOpt(kids) THEN 2 ELSE a.o]
              ELSE [k |-> a.k, c |-> Flat(a.k, kids), o |-> a.o]
SameModel(a, b) == Norm(a) = Norm(b)
ElemType(a) == CASE a.k = "EMPTY" -> 1 [] a.k = "ANY" -> 2 [] a.k = "mixed" -> 3 [] OTHER -> 4

(* Declarations return [ok, p, d (new tables), ev]; when not ok, ev are    *)
(* the events of the part before the mistake, which may be reported.       *)
NOEV(ev) == [ok |-> FALSE, ev |-> ev]
DOK(p, d, ev) == [ok |-> TRUE, p |-> p, d |-> d, ev |-> ev]

ElementDecl(T, p, d) ==
    LET b == SkipB(T, p + 9)
        e == Name(T, b)
        n == Cut(T, b, e)
        b2 == SkipB(T, e)
        s == ContentSpec(T, b2)
        f == SkipB(T, s.p)
    IN IF b = p + 9 \/ e = b \/ b2 = e THEN NOEV(<<>>)
       ELSE IF ~s.ok THEN NOEV(<<>>)
       ELSE IF At(T, f) # cGt THEN NOEV(<<>>)
       ELSE LET new == n \notin d.elems
                ev == [k |-> "eld", n |-> n, c |-> s.a, b |-> new]
            IN DOK(f + 1, IF new THEN [d EXCEPT !.elems = @ \cup {n}, !.list = Append(@, ev)] ELSE d, <<ev>>)

Types == <<"CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN">>
TypeText == [i \in 1..Len(Types) |-> S(Types[i])]

RECURSIVE Enum(_, _, _, _)
Enum(T, p, nm, acc) ==   \* p: at a token; nm: it must be a Name
    LET e == IF nm THEN Name(T, p) ELSE NameEnd(T, p)
        b == SkipB(T, e)
        a == Append(acc, Cut(T, p, e))
    IN IF e = p THEN NO
       ELSE IF At(T, b) = cBar THEN Enum(T, SkipB(T, b + 1), nm, a)
       ELSE IF At(T, b) = cRPar THEN [ok |-> TRUE, p |-> b + 1, en |-> a] ELSE NO

AttTypeAt(T, p) ==
    LET is == {i \in 1..Len(Types) : Has(T, p, TypeText[i])} IN
    IF is # {} THEN LET i == CHOOSE i \in is : \A j \in is : i <= j IN   \* IDREFS before IDREF before ID
                    [ok |-> TRUE, p |-> p + Len(TypeText[i]), t |-> Types[i], en |-> <<>>]
    ELSE IF Has(T, p, sNOTATION)
         THEN LET b == SkipB(T, p + 8) IN
              IF b = p + 8 \/ At(T, b) # cLPar THEN NO
              ELSE LET r == Enum(T, SkipB(T, b + 1), TRUE, <<>>) IN
                   IF r.ok THEN [ok |-> TRUE, p |-> r.p, t |-> "NOTATION", en |-> r.en] ELSE NO
    ELSE IF At(T, p) = cLPar
         THEN LET r == Enum(T, SkipB(T, p + 1), FALSE, <<>>) IN
              IF r.ok THEN [ok |-> TRUE, p |-> r.p, t |-> "ENUM", en |-> r.en] ELSE NO
    ELSE NO

DefaultAt(T, p, ents) ==
    IF Has(T, p, sRequired) THEN [ok |-> TRUE, p |-> p + 9, df |-> "REQUIRED", v |-> <<>>]
    ELSE IF Has(T, p, sImplied) THEN [ok |-> TRUE, p |-> p + 8, df |-> "IMPLIED", v |-> <<>>]
    ELSE LET fix == Has(T, p, sFixed)
             b == IF fix THEN SkipB(T, p + 6) ELSE p
             v == AttValue(T, b, ents)
         IN IF (fix /\ b = p + 6) \/ ~v.ok THEN NO
            ELSE [ok |-> TRUE, p |-> v.p, df |-> IF fix THEN "FIXED" ELSE "NONE", v |-> v.v]

RECURSIVE AttDefs(_, _, _, _, _)
AttDefs(T, p, en, d, evs) ==   \* p: at an attribute name, after blanks
    LET e == Name(T, p)
        an == Cut(T, p, e)
        b == SkipB(T, e)
        t == AttTypeAt(T, b)
        b2 == SkipB(T, t.p)
        v == DefaultAt(T, b2, d.ents)
        g == SkipB(T, v.p)
    IN IF e = p \/ b = e THEN NOEV(evs)
       ELSE IF ~t.ok THEN NOEV(evs)
       ELSE IF b2 = t.p \/ ~v.ok THEN NOEV(evs)
       ELSE IF At(T, g) # cGt /\ g = v.p THEN NOEV(evs)
       ELSE LET val == IF t.t = "CDATA" THEN v.v ELSE Normalize(v.v)
                key == <<en, an>>
                new == key \notin DOMAIN d.atts
                q == SplitQ(an)
                ev == [k |-> "atd", e |-> en, n |-> an, ty |-> t.t, df |-> v.df, v |-> val, en |-> t.en, b |-> new]
                d1 == IF ~new THEN d
                      ELSE [d EXCEPT !.atts = (key :> t.t) @@ @,
                                     !.list = Append(@, ev),
                                     !.defs = IF v.df \in {"NONE", "FIXED"}
                                              THEN LET x == [pre |-> q.pre, loc |-> q.loc, qn |-> an, v |-> val]
                                                       o == IF en \in DOMAIN @ THEN @[en] ELSE <<>>
                                                   IN (en :> Append(o, x)) @@ @
                                              ELSE @]
                evs1 == Append(evs, ev)
            IN IF an = sXmlId /\ t.t # "ID" THEN [ok |-> FALSE, ev |-> evs, unspec |-> TRUE]
               ELSE IF At(T, g) = cGt THEN DOK(g + 1, d1, evs1)
               ELSE AttDefs(T, g, en, d1, evs1)

AttlistDecl(T, p, d) ==
    LET b == SkipB(T, p + 9)
        e == Name(T, b)
        f == SkipB(T, e)
    IN IF b = p + 9 \/ e = b THEN NOEV(<<>>)
       ELSE IF At(T, f) = cGt THEN DOK(f + 1, d, <<>>)
       ELSE IF f = e THEN NOEV(<<>>)
       ELSE AttDefs(T, f, Cut(T, b, e), d, <<>>)

\* an entity value, from p (after the opening quote q): the replacement text
RECURSIVE EntVal(_, _, _, _)
EntVal(T, p0, q, out0) ==
    LET p == Find(T, p0, LAMBDA c : c = q \/ c = cPerc \/ c = cAmp \/ ~IsChar(c))
        c == At(T, p)
        out == out0 \o Cut(T, p0, p)
    IN
    IF c = q THEN [ok |-> TRUE, p |-> p + 1, v |-> out]
    ELSE IF ~IsChar(c) \/ c = cPerc THEN NO
    ELSE IF At(T, p + 1) = cHash
         THEN LET r == CharRef(T, p) IN IF r.ok THEN EntVal(T, r.p, q, Append(out, r.c)) ELSE NO
         ELSE LET r == EntRef(T, p) IN IF r.ok THEN EntVal(T, r.p, q, out \o Cut(T, p, r.p)) ELSE NO

\* [4.6] the only declarations of predefined entities that are allowed
PredefDeclOK(n, v) ==
    LET c == PredefTab[n] IN
    \/ (c \notin {cAmp, cLt} /\ v = <<c>>)
    \/ v = sAmpHash \o Dec(c) \o <<cSemi>>

\* [75] ExternalID at p: [ok, p, pub, sys], pub <<>> if there is none
ExtID(T, p) ==
    LET pb == Has(T, p, sPublic)
        b == SkipB(T, p + 6)
        e1 == RunEnd(T, b + 1, <<At(T, b)>>)
        s == IF pb THEN SkipB(T, e1 + 1) ELSE b
        e2 == RunEnd(T, s + 1, <<At(T, s)>>)
        quote == {cQuot, cApos}
    IN IF ~pb /\ ~Has(T, p, sSystem) THEN NO
       ELSE IF b = p + 6 \/ At(T, b) \notin quote \/ e1 = 0 THEN NO
       ELSE IF pb /\ ~(\A i \in (b + 1)..(e1 - 1) : IsPubid(T[i])) THEN NO
       ELSE IF pb /\ (s = e1 + 1 \/ At(T, s) \notin quote) THEN NO
       ELSE IF e2 = 0 THEN NO
       ELSE [ok |-> TRUE, p |-> e2 + 1, pub |-> IF pb THEN Cut(T, b + 1, e1) ELSE <<>>, sys |-> Cut(T, s + 1, e2)]

\* the declaration of an external entity, whose identifier is at p
ExtEntity(T, p, d, n, par) ==
    LET x == ExtID(T, p)
        b == SkipB(T, x.p)
        nd == Has(T, b, sNDATA)
        b2 == SkipB(T, b + 5)
        e == Name(T, b2)
        f == SkipB(T, IF nd THEN e ELSE x.p)
        ev == [k |-> "ent", n |-> n, par |-> par, v |-> IF nd THEN Cut(T, b2, e) ELSE <<>>, b |-> TRUE,
               ty |-> IF par THEN "pext" ELSE IF nd THEN "gunp" ELSE "gext", pi |-> x.pub, si |-> x.sys]
    IN IF ~x.ok THEN NOEV(<<>>)
       ELSE IF nd /\ (par \/ b = x.p \/ b2 = b + 5 \/ e = b2) THEN NOEV(<<>>)
       ELSE IF At(T, f) # cGt THEN NOEV(<<>>)
       ELSE DOK(f + 1, [d EXCEPT !.list = Append(@, ev)], <<ev>>)

EntityDecl(T, p, d, ext) ==
    LET b0 == SkipB(T, p + 8)
        par == At(T, b0) = cPerc
        b == IF par THEN SkipB(T, b0 + 1) ELSE b0
        e == Name(T, b)
        n == Cut(T, b, e)
        b2 == SkipB(T, e)
        q == At(T, b2)
        v == EntVal(T, b2 + 1, q, <<>>)
        f == SkipB(T, v.p)
    IN IF b0 = p + 8 \/ (par /\ b = b0 + 1) \/ e = b \/ b2 = e \/ Pos(n, cColon) # 0 THEN NOEV(<<>>)
       ELSE IF Has(T, b2, sSystem) \/ Has(T, b2, sPublic)
            THEN IF ext THEN ExtEntity(T, b2, d, n, par) ELSE [ok |-> FALSE, ev |-> <<>>, unspec |-> TRUE]   \* external entities are not supported
       ELSE IF q # cQuot /\ q # cApos THEN NOEV(<<>>)
       ELSE IF ~v.ok THEN NOEV(<<>>)
       ELSE LET new == IF par THEN n \notin d.pents ELSE n \notin DOMAIN d.ents
                ev == [k |-> "ent", n |-> n, par |-> par, v |-> v.v, b |-> new]
                d1 == IF ~new THEN d
                      ELSE IF par THEN [d EXCEPT !.pents = @ \cup {n}, !.list = Append(@, ev)]
                      ELSE [d EXCEPT !.ents = (n :> v.v) @@ @, !.list = Append(@, ev)]
            IN IF ~par /\ n \in PredefNames /\ ~PredefDeclOK(n, v.v) THEN [ok |-> FALSE, ev |-> <<>>, unspec |-> TRUE]
               ELSE IF At(T, f) # cGt THEN NOEV(<<ev>>)
               ELSE DOK(f + 1, d1, <<ev>>)

(* <!DOCTYPE name [  or  <!DOCTYPE name > *)
DoDoctype(T, m) ==
    LET p == Frame(m).p
        b == SkipB(T, p + 9)
        e == Name(T, b)
        f == SkipB(T, e)
        n == Cut(T, b, e)
        x == ExtID(T, f)
        hasx == m.ext /\ f > e /\ x.ok
        g == IF hasx THEN SkipB(T, x.p) ELSE f
        ev == IF hasx THEN [k |-> "is", n |-> n, pi |-> x.pub, si |-> x.sys] ELSE [k |-> "is", n |-> n]
        m1 == [m EXCEPT !.dt = TRUE, !.d.name = n]
    IN IF m.dt \/ b = p + 9 \/ e = b THEN Bad(m)
       ELSE IF f > e /\ ~m.ext /\ (Has(T, f, sSystem) \/ Has(T, f, sPublic)) THEN Unspec(m)
       ELSE IF At(T, g) = cLBr THEN Res([Goto(m1, g + 1) EXCEPT !.st = "dtd"], <<ev>>)
       ELSE IF At(T, g) = cGt THEN Res(Goto(m1, g + 1), <<ev, [k |-> "ds"]>>)
       ELSE BadAfter(m, <<ev>>)

DtdKind(T, p) ==
    IF p > Len(T) THEN "bad"
    ELSE IF T[p] = cRBr THEN "dtdend"
    ELSE IF T[p] = cPerc THEN "peref"
    ELSE IF Has(T, p, sPI) THEN "pi"
    ELSE IF Has(T, p, sComment) THEN "comment"
    ELSE IF Has(T, p, sElement) THEN "elementdecl"
    ELSE IF Has(T, p, sAttlist) THEN "attlistdecl"
    ELSE IF Has(T, p, sEntity) THEN "entitydecl"
    ELSE IF Has(T, p, sNotation) THEN "notationdecl"
    ELSE "bad"

DoDtdEnd(T, m) ==
    LET e == SkipB(T, Frame(m).p + 1) IN
    IF At(T, e) = cGt THEN Res([Goto(m, e + 1) EXCEPT !.st = "prolog"], <<[k |-> "ds"]>>) ELSE Bad(m)

DoPERef(T, m) ==     \* the declarations a parameter entity stands for are not read
    LET p == Frame(m).p
        e == Name(T, p + 1)
    IN IF e = p + 1 \/ At(T, e) # cSemi THEN Bad(m) ELSE Unspec(m)

DoDecl(m, r) ==
    IF r.ok THEN Res([Goto(m, r.p) EXCEPT !.d = r.d], r.ev)
    ELSE IF "unspec" \in DOMAIN r THEN Res([m EXCEPT !.st = "unspec"], r.ev)
    ELSE BadAfter(m, r.ev)

\* comments and PIs in the document type have their place among the declarations
InDtd(r) == IF r.m.st = "dtd" THEN [r EXCEPT !.m.d.list = @ \o r.ev] ELSE r

----------------------------------------------------------------------------
(* What comes next, and what to do with it *)

Kind(txt, m) ==
    LET T == TextOf(txt, m)
        p == Frame(m).p
    IN CASE m.st = "content" -> IF ContentKind(T, p) = "doctype" THEN "bad" ELSE ContentKind(T, p)
         [] m.st = "dtd" -> IF IsBlank(At(T, p)) THEN "blanks" ELSE DtdKind(T, p)
         [] m.st \in {"prolog", "epilog"} ->
              IF IsBlank(At(T, p)) THEN "blanks"
              ELSE LET k == ContentKind(T, p) IN
                   IF k \in {"comment", "pi"} THEN k
                   ELSE IF k = "end" THEN IF m.st = "epilog" THEN "eof" ELSE "bad"
                   ELSE IF m.st = "prolog" /\ k \in {"stag", "doctype"} THEN k
                   ELSE "bad"
         [] OTHER -> "none"

Kinds == {"text", "charref", "entref", "end", "stag", "etag", "comment", "pi", "cdata",
          "doctype", "dtdend", "peref", "elementdecl", "attlistdecl", "entitydecl",
          "notationdecl", "blanks", "eof", "bad"}

Do(k, txt, m) ==
    LET T == TextOf(txt, m)
        p == Frame(m).p
    IN CASE k = "text" -> DoText(T, m)
         [] k = "charref" -> DoCharRef(T, m)
         [] k = "entref" -> DoEntRef(T, m)
         [] k = "end" -> DoEnd(m)
         [] k = "stag" -> DoStartTag(T, m)
         [] k = "etag" -> DoEndTag(T, m)
         [] k = "comment" -> InDtd(DoComment(T, m))
         [] k = "pi" -> InDtd(DoPI(T, m))
         [] k = "cdata" -> DoCData(T, m)
         [] k = "doctype" -> DoDoctype(T, m)
         [] k = "dtdend" -> DoDtdEnd(T, m)
         [] k = "peref" -> DoPERef(T, m)
         [] k = "elementdecl" -> DoDecl(m, ElementDecl(T, p, m.d))
         [] k = "attlistdecl" -> DoDecl(m, AttlistDecl(T, p, m.d))
         [] k = "entitydecl" -> DoDecl(m, EntityDecl(T, p, m.d, m.ext))
         [] k = "notationdecl" -> Unspec(m)
         [] k = "blanks" -> Res(Goto(m, SkipB(T, p)), <<>>)
         [] k = "eof" -> Res([m EXCEPT !.st = "done"], <<[k |-> "ed"]>>)
         [] k = "bad" -> Bad(m)

Step(txt, m) == Do(Kind(txt, m), txt, m)

----------------------------------------------------------------------------
(* Before the first token: byte order mark, XML declaration, line ends.    *)

(* Line ends: CR LF and CR are read as LF *)
FixLines(t) ==
    IF Find(t, 1, LAMBDA c : c = CR) > Len(t) THEN t
    ELSE LET keep == SelectSeq(Positions(t), LAMBDA i : ~(t[i] = LF /\ i > 1 /\ t[i - 1] = CR))
         IN TLCEval([k \in 1..Len(keep) |-> IF t[keep[k]] = CR THEN LF ELSE t[keep[k]]])

\* name S? = S? 'value' : [ok, p, v] with the value unchecked
PseudoAtt(T, p, name) ==
    LET e == SkipB(T, p + Len(name))
        b == SkipB(T, e + 1)
        q == At(T, b)
        c == RunEnd(T, b + 1, <<q>>)
    IN IF ~Has(T, p, name) \/ At(T, e) # cEq \/ (q # cQuot /\ q # cApos) THEN NO
       ELSE IF c = 0 THEN NO ELSE [ok |-> TRUE, p |-> c + 1, v |-> Cut(T, b + 1, c)]

VersionOK(v) == Len(v) >= 3 /\ IsDigit(v[1]) /\ v[2] = cDot /\ \A i \in 3..Len(v) : IsDigit(v[i])
EncNameOK(v) == Len(v) >= 1 /\ IsAlpha(v[1]) /\
                \A i \in 2..Len(v) : IsAlpha(v[i]) \/ IsDigit(v[i]) \/ v[i] \in {cDot, 95, cDash}

\* [23] XMLDecl, given that T starts with "<?xml" and a blank:
\* [ok, p, v, e, s] with s: "yes" "no" or "" (absent)
XmlDecl(T) ==
    LET b0 == SkipB(T, 6)
        v == PseudoAtt(T, b0, sVersion)
        b1 == SkipB(T, v.p)
        hasE == Has(T, b1, sEncoding)
        e == PseudoAtt(T, b1, sEncoding)
        pe == IF hasE THEN e.p ELSE v.p
        b2 == SkipB(T, pe)
        hasS == Has(T, b2, sStandalone)
        s == PseudoAtt(T, b2, sStandalone)
        ps == IF hasS THEN s.p ELSE pe
        b3 == SkipB(T, ps)
    IN IF ~v.ok THEN NO
       ELSE IF ~VersionOK(v.v) THEN NO
       ELSE IF hasE /\ (b1 = v.p \/ ~e.ok) THEN NO
       ELSE IF hasE /\ ~EncNameOK(e.v) THEN NO
       ELSE IF hasS /\ (b2 = pe \/ ~s.ok) THEN NO
       ELSE IF hasS /\ s.v # sYes /\ s.v # sNo THEN NO
       ELSE IF ~Has(T, b3, sPIEnd) THEN NO
       ELSE [ok |-> TRUE, p |-> b3 + 2, v |-> v.v, e |-> IF hasE THEN e.v ELSE <<>>,
             s |-> IF ~hasS THEN "" ELSE IF s.v = sYes THEN "yes" ELSE "no"]

HasXmlDecl(T) == Has(T, 1, sXmlDecl) /\ IsBlank(At(T, 6))
=============================================================================
