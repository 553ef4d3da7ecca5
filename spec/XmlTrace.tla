------------------------------ MODULE XmlTrace ------------------------------
(***************************************************************************)
(* Trace validation: is what helium did with a document a behaviour of the *)
(* XML machine?                                                            *)
(*                                                                         *)
(* Each recorded trace is one initial state.  The machine then reads the   *)
(* document token by token, and everything it reports must be what the     *)
(* code reported (events) and what the code built (tree).  When the        *)
(* document was accepted, the machine reads what the code serialized       *)
(* ("dump"), which must denote the same tree and the same declarations.    *)
(*                                                                         *)
(* A trace (a line of $TRACE) has, see driver/record.go:                   *)
(*   b, ok, hasdoc, ev       the document, the outcome, the events; ig are *)
(*                           those texts said to be ignorable in part      *)
(*   ok2, tree, dump, dump2  the same document parsed without a handler of *)
(*                           our own: its tree, serialization, and         *)
(*                           serialization once read again                 *)
(*   pure, pureok            events seen by handlers that build no tree    *)
(* or, with kind "build",                                                  *)
(*   tree, dump, derr        a tree made with the constructors of the API, *)
(*                           and how it is serialized                      *)
(*   before, same            the tree as read back from its nodes, and     *)
(*                           whether it is the same once serialized        *)
(***************************************************************************)
EXTENDS Doc, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES
    tr,    \* the trace
    text,  \* the text being read (determined by tr and phase, and not part of the VIEW)
    phase,   \* "src": reading the document, "dump": reading what was serialized, "end"
    mach,    \* the XML machine
    expl,    \* how far the trace is explained, see X0
    decls    \* the declarations of the document
vars == <<tr, text, phase, mach, expl, decls>>
view == <<tr, phase, mach, expl, decls>>

R == Traces[tr]
Built == "kind" \in DOMAIN R       \* made with the API
Tree == Built \/ R.hastree

\* e: next recorded event, pe: text to be matched with it; t, pt: the same
\* for the tree; short: the code reported less than the machine; bad: the
\* first disagreement; n: tokens read
X0 == [e |-> 1, pe |-> [k |-> "", t |-> <<>>, mx |-> FALSE], t |-> 1, pt |-> <<>>, short |-> FALSE, bad |-> "", n |-> 0]
Blame(y, why) == IF y.bad = "" THEN [y EXCEPT !.bad = why] ELSE y

----------------------------------------------------------------------------
(* Events *)

Same(f, e, r) == f \in DOMAIN r /\ r[f] = e[f]
SameSeqSet(a, b) == Len(a) = Len(b) /\ {a[j] : j \in 1..Len(a)} = {b[j] : j \in 1..Len(b)}

SameEvent(e, r) ==
    /\ r.k = e.k
    /\ CASE e.k = "se" -> /\ DOMAIN r = {"k", "l", "p", "u", "ns", "at", "df"}
                          /\ r.l = e.l /\ r.p = e.p /\ r.u = e.u /\ r.ns = e.ns
                          /\ r.at = e.at /\ SameSeqSet(r.df, e.df)
         [] e.k = "eld" -> r.n = e.n /\ r.ty = ElemType(e.c)
         [] e.k = "atd" -> r.e = e.e /\ r.n = e.n /\ r.ty = e.ty /\ r.df = e.df /\ r.v = e.v /\ r.en = e.en
         [] e.k = "ent" -> r.n = e.n /\ r.par = e.par /\ r.v = e.v
         [] OTHER -> r = e

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]

\* the text gathered must be the next recorded event
FlushE(y) ==
    IF y.pe.k = "" THEN y
    ELSE LET z == [y EXCEPT !.pe = [k |-> "", t |-> <<>>, mx |-> FALSE], !.e = @ + 1] IN
         IF y.short \/ y.e > Len(R.ev) THEN [z EXCEPT !.short = TRUE]
         ELSE LET r == R.ev[y.e] IN
              IF r.k = y.pe.k /\ y.pe.mx /\ (\E j \in 1..Len(R.ig) : R.ig[j] = y.e) THEN Blame(z, "ignorable in mixed content")
              ELSE IF r.k = y.pe.k /\ r.t = y.pe.t THEN z
              ELSE IF r.k = y.pe.k /\ y.e = Len(R.ev) /\ IsPrefixOf(r.t, y.pe.t) THEN [z EXCEPT !.short = TRUE]
              ELSE Blame(z, "event " \o y.pe.k)

\* mx: the element the event is in has mixed content
MatchE(y, e, mx) ==
    IF e.k = "ds" THEN y
    ELSE IF e.k \in {"ch", "cd"}
    THEN IF e.t = <<>> THEN y
         ELSE IF y.pe.k = e.k THEN [y EXCEPT !.pe.t = @ \o e.t, !.pe.mx = @ \/ mx]
         ELSE [FlushE(y) EXCEPT !.pe = [k |-> e.k, t |-> e.t, mx |-> mx]]
    ELSE LET z == FlushE(y) IN
         IF z.short \/ z.e > Len(R.ev) THEN [z EXCEPT !.short = TRUE, !.e = @ + 1]
         ELSE IF SameEvent(e, R.ev[z.e]) THEN [z EXCEPT !.e = @ + 1]
         ELSE Blame([z EXCEPT !.e = @ + 1], "event " \o e.k)

----------------------------------------------------------------------------
(* The tree *)

FlushT(y) ==
    IF y.pt = <<>> THEN y
    ELSE LET z == [y EXCEPT !.pt = <<>>, !.t = @ + 1] IN
         IF y.t <= Len(R.tree) /\ R.tree[y.t].k = "tx" /\ R.tree[y.t].t = y.pt THEN z
         ELSE Blame(z, "tree text")

\* tx, how the tree's node serializes, is the declaration e
SameDecl(tx, e, d) ==
    LET d0 == [EmptyDTD EXCEPT !.ents = d.ents]
        r == IF e.k = "eld" THEN ElementDecl(tx, 1, d0) ELSE AttlistDecl(tx, 1, d0)
        g == r.ev[1]
    IN /\ Has(tx, 1, IF e.k = "eld" THEN sElement ELSE sAttlist)
       /\ r.ok
       /\ r.p = Len(tx) + 1
       /\ Len(r.ev) = 1
       /\ IF e.k = "eld" THEN g.n = e.n /\ SameModel(g.c, e.c)
          ELSE g.e = e.e /\ g.n = e.n /\ g.ty = e.ty /\ g.df = e.df /\ g.v = e.v /\ g.en = e.en

\* the declaration e is next in the tree
MatchDecl(y, e, d) ==
    LET z == FlushT(y) IN
    IF z.t <= Len(R.tree) /\ R.tree[z.t].k = e.k /\ SameDecl(R.tree[z.t].tx, e, d) THEN [z EXCEPT !.t = @ + 1]
    ELSE Blame([z EXCEPT !.t = @ + 1], "tree " \o e.k)

\* node w is next in the tree
MatchT(y, w) ==
    LET z == FlushT(y) IN
    IF z.t <= Len(R.tree) /\ R.tree[z.t].k = w.k /\ R.tree[z.t] = w THEN [z EXCEPT !.t = @ + 1]
    ELSE Blame([z EXCEPT !.t = @ + 1], "tree " \o w.k)

QNameOf(a) == IF a.p = <<>> THEN a.l ELSE a.p \o <<cColon>> \o a.l

\* what event e adds to the tree; top: it is not from an entity's replacement
\* text, d: the declarations
Grow(y, e, top, d) ==
    IF ~Tree THEN y
    ELSE CASE e.k \in {"ch", "cd"} -> IF top THEN [y EXCEPT !.pt = @ \o e.t] ELSE y
      [] e.k = "se" -> IF top THEN MatchT(y, [k |-> "el", l |-> e.l, p |-> e.p, u |-> e.u, ns |-> e.ns,
                                              at |-> [j \in 1..Len(e.at) |-> [n |-> QNameOf(e.at[j]), v |-> e.at[j].v]]])
                       ELSE y
      [] e.k = "ee" -> IF top THEN MatchT(y, [k |-> "/el"]) ELSE y
      [] e.k \in {"co", "pi"} -> IF top THEN MatchT(y, e) ELSE y
      [] e.k = "rf" -> IF top THEN MatchT(y, [k |-> "er", n |-> e.n, t |-> d.ents[e.n]]) ELSE y
      [] e.k = "is" -> MatchT(y, [e EXCEPT !.k = "dtd"])
      [] e.k = "ds" -> MatchT(y, [k |-> "/dtd"])
      [] e.k \in {"eld", "atd"} -> IF e.b THEN MatchDecl(y, e, d) ELSE y
      [] e.k = "ent" -> IF ~e.b THEN y
                         ELSE IF Built /\ "ty" \in DOMAIN e THEN MatchT(y, [k |-> "ent", n |-> e.n, t |-> e.v, ty |-> e.ty, pi |-> e.pi, si |-> e.si])
                         ELSE IF Built /\ e.par THEN MatchT(y, [k |-> "ent", n |-> e.n, t |-> e.v, ty |-> "par"])
                         ELSE MatchT(y, [k |-> "ent", n |-> e.n, t |-> e.v])
      [] e.k = "ed" -> MatchT(y, [k |-> "/doc"])
      [] OTHER -> y

\* the document node; one without an XML declaration has version 1.0
Version(v) == IF v = <<>> THEN sOneZero ELSE v
MatchDoc(y, o) ==
    IF /\ 1 <= Len(R.tree)
       /\ LET w == R.tree[1] IN w.k = "doc" /\ Version(w.v) = o.v /\ w.e = o.e /\ w.s = o.s
    THEN [y EXCEPT !.t = 2] ELSE Blame([y EXCEPT !.t = 2], "tree doc")

RECURSIVE Explain(_, _, _, _, _, _, _)
Explain(y, evs, j, src, top, d, mx) ==
    IF j > Len(evs) THEN y
    ELSE Explain(Grow(IF src THEN MatchE(y, evs[j], mx) ELSE y, evs[j], top, d), evs, j + 1, src, top, d, mx)

----------------------------------------------------------------------------
(* Behaviour *)

Start(y, o, src) ==
    LET z == IF src THEN MatchE(y, [k |-> "sd"], FALSE) ELSE y
    IN IF Tree THEN MatchDoc(z, o) ELSE z

AtOutcome(o) == [Machine0 EXCEPT !.st = IF o.st = "ok" THEN @ ELSE o.st, !.ext = Built]

Init == /\ tr \in 1..N
        /\ phase = IF Built THEN "dump" ELSE "src"
        /\ LET o == IF Built THEN Open(R.dump) ELSE Open(R.b) IN
           /\ mach = AtOutcome(o)
           /\ text = IF o.st = "ok" THEN o.t ELSE <<>>
           /\ expl = IF o.st = "ok" THEN Start(X0, o, ~Built) ELSE X0
        /\ decls = <<>>

\* text may be mixed with the children of the elements called n
Mixed(n, d) == \E j \in 1..Len(d.list) : d.list[j].k = "eld" /\ d.list[j].n = n /\ ElemType(d.list[j].c) \in {2, 3}

\* the machine takes a step; what it reports is explained
Token(kind) ==
    LET r == Do(kind, text, mach)
        \* does what is reported belong to the document itself
        top == Len(mach.in) = 1 \/ (kind = "end" /\ Len(r.m.in) = 1)
        mx == phase = "src" /\ mach.stack # <<>> /\ mach.d.elems # {} /\ Mixed(mach.stack[Len(mach.stack)].qn, mach.d)
    IN /\ mach' = r.m
       /\ expl' = [Explain(expl, r.ev, 1, phase = "src", top, r.m.d, mx) EXCEPT !.n = @ + 1]
       /\ UNCHANGED <<tr, text, phase, decls>>

Say(verdict, y) == PrintT(<<"RES", tr, verdict, y.bad, y.n, y.e, y.t>>)

Finish(verdict, y) ==
    /\ Say(verdict, y)
    /\ phase' = "end" /\ text' = <<>> /\ mach' = Machine0 /\ expl' = X0 /\ decls' = <<>> /\ tr' = tr

\* the document was read completely
AcceptX(y) ==
    LET z == FlushE(y) IN
    IF z.bad # "" THEN z
    ELSE IF ~R.ok \/ ~R.ok2 \/ ~R.hasdoc THEN Blame(z, "rejected")
    ELSE IF z.short \/ z.e # Len(R.ev) + 1 THEN Blame(z, "events")
    ELSE IF R.hastree /\ (z.t # Len(R.tree) + 1) THEN Blame(z, "tree")
    ELSE IF R.haspure /\ ~mach.dt /\ (~R.pureok \/ R.pure # R.ev) THEN Blame(z, "pure")
    ELSE z

\* the document has a mistake: it must be rejected, and nothing but the
\* events before the mistake may have been reported
RejectX(y) ==
    LET z == FlushE(y) IN
    IF R.ok \/ R.ok2 \/ R.hasdoc THEN Blame(z, "accepted")
    ELSE IF z.bad # "" THEN z
    ELSE IF ~z.short /\ z.e # Len(R.ev) + 1 THEN Blame(z, "events after the mistake")
    ELSE IF R.haspure /\ ~mach.dt /\ (R.pureok \/ R.pure # R.ev) THEN Blame(z, "pure")
    ELSE z

\* the machine has stopped in the document
SrcEnd ==
    /\ phase = "src"
    /\ CASE mach.st = "err" -> Finish("err", RejectX(expl))
         [] mach.st = "unspec" -> Finish("unspec", IF R.ok # R.ok2 THEN Blame(expl, "handler matters") ELSE X0)
         [] mach.st = "done" ->
              LET y == AcceptX(expl) IN
              IF y.bad # "" \/ ~R.hasdump THEN Finish("done", y)
              ELSE IF R.derr # "" THEN Finish("done", Blame(y, "dump"))
              ELSE IF R.dump2 # R.dump THEN Finish("done", Blame(y, "dump again"))
              ELSE LET o == Open(R.dump) IN
                   IF o.st = "unspec" THEN Finish("done", y)
                   ELSE IF o.st = "err" THEN Finish("done", Blame(y, "dump ill-formed"))
                   ELSE /\ phase' = "dump" /\ text' = o.t /\ mach' = Machine0 /\ decls' = mach.d.list
                        /\ expl' = [Start(X0, o, FALSE) EXCEPT !.n = y.n, !.e = y.e]
                        /\ tr' = tr

SameList(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A j \in 1..Len(a) :
          /\ a[j].k = b[j].k
          /\ IF a[j].k = "eld" THEN a[j].n = b[j].n /\ SameModel(a[j].c, b[j].c) ELSE a[j] = b[j]

DumpEnd ==
    /\ phase = "dump"
    /\ LET y == expl IN
       Finish("done",
         IF Built /\ R.derr # "" THEN Blame(X0, "built " \o R.derr)
         ELSE IF Built /\ R.before # R.tree THEN Blame(X0, "built tree")
         ELSE IF Built /\ ~R.same THEN Blame(X0, "changed by serializing")
         ELSE IF mach.st = "err" THEN Blame(y, "dump ill-formed")
         ELSE IF mach.st = "unspec" THEN Blame(y, "dump unspec")
         ELSE IF y.bad # "" THEN [y EXCEPT !.bad = "dump " \o @]
         ELSE IF Tree /\ y.t # Len(R.tree) + 1 THEN Blame(y, "dump tree")
         ELSE IF ~Built /\ ~SameList(decls, mach.d.list) THEN Blame(y, "dump declarations")
         ELSE y)

Next ==
    \/ phase # "end" /\ ~Terminal(mach) /\ \E kind \in {Kind(text, mach)} : Token(kind)
    \/ phase # "end" /\ Terminal(mach) /\ (SrcEnd \/ DumpEnd)

Spec == Init /\ [][Next]_vars

\* the stack discipline of the machine, checked in every state of every trace
Nested == phase # "end" =>
    /\ \A j \in 1..Len(mach.in) : mach.in[j].base <= Len(mach.stack)
    /\ \A j \in 1..(Len(mach.in) - 1) : mach.in[j].base <= mach.in[j + 1].base
    /\ mach.st \in {"prolog", "dtd", "epilog", "done"} => mach.stack = <<>> /\ Len(mach.in) = 1
    /\ mach.st = "content" => mach.stack # <<>>
=============================================================================
