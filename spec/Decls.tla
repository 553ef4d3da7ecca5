------------------------------- MODULE Decls -------------------------------
(***************************************************************************)
(* The tables of document types (property C18): what a look-up by name     *)
(* finds after any history of declarations and removals, parsed or made    *)
(* with the API.                                                           *)
(*                                                                         *)
(* A machine is a record of                                                *)
(*   nodes  the declarations in the order they came into being, as the     *)
(*          XML machine reports them                                       *)
(*   tab    for each document type, what its tables hold: a function from  *)
(*          <<kind, local name, prefix, element>> to a node                *)
(*   kids   for each document type, the declarations in it, in order       *)
(*   int    the document type that is the document's own, or 0             *)
(*   d      what was declared by a document that was parsed                *)
(*   rm     whether a declaration was removed from a table (what becomes   *)
(*          of the node is not specified)                                  *)
(*                                                                         *)
(* Apply(m, o) is [m, err, spec], see Dom; o is <<name, a, b, s, u>>.      *)
(***************************************************************************)
EXTENDS Doc

D0 == [nodes |-> <<>>, tab |-> <<>>, kids |-> <<>>, int |-> 0, d |-> EmptyDTD, rm |-> FALSE]

Yes(m) == [m |-> m, err |-> FALSE, spec |-> TRUE]
No(m) == [m |-> m, err |-> TRUE, spec |-> TRUE]
Unsaid(m) == [m |-> m, err |-> FALSE, spec |-> FALSE]

\* the key of a qualified name
Key(kind, name, elem) ==
    LET q == SplitQ(name) IN
    IF kind \in {"el", "at"} THEN <<kind, q.loc, q.pre, elem>> ELSE <<kind, name, <<>>, <<>>>>

Held(m, x, key) == IF key \in DOMAIN m.tab[x] THEN m.tab[x][key] ELSE 0

\* a document type more
Opened(m) == [m EXCEPT !.tab = Append(@, [k \in {} |-> 0]), !.kids = Append(@, <<>>)]

Enter(m, x, key, node) ==
    LET i == Len(m.nodes) + 1 IN
    [m EXCEPT !.nodes = Append(@, node), !.tab[x] = (key :> i) @@ @, !.kids[x] = Append(@, i)]

\* content: "#PCDATA", the name of an element, or <<>> for none
AddElement(m, x, type, name, content) ==
    LET key == Key("el", name, <<>>)
        model == CASE type = 1 -> [k |-> "EMPTY"] [] type = 2 -> [k |-> "ANY"] [] type = 3 -> [k |-> "mixed", c |-> <<>>]
                   [] OTHER -> [k |-> "el", n |-> content, o |-> 0]
    IN IF \/ type \notin 1..4
          \/ type \in {1, 2} /\ content # <<>>
          \/ type \in {3, 4} /\ content = <<>>
          \/ Held(m, x, key) # 0
       THEN No(m)
       ELSE IF (type = 3) # (content = sPCDATA) THEN Unsaid(m)
       ELSE Yes(Enter(m, x, key, [k |-> "eld", n |-> name, c |-> model, b |-> TRUE]))

\* type: 1 internal, 2 external, 3 unparsed, 4 internal and 5 external parameter entity
AddEnt(m, x, type, name, content) ==
    LET par == type \in {4, 5}
        key == Key(IF par THEN "pe" ELSE "en", name, <<>>)
        ev == [k |-> "ent", n |-> name, par |-> par, v |-> content, b |-> TRUE]
    IN IF type \notin 1..5 \/ Held(m, x, key) # 0 THEN No(m)
       ELSE Yes(Enter(m, x, key, IF type \in {1, 4} THEN ev
                                 ELSE ev @@ [ty |-> <<"", "gext", "gunp", "", "pext">>[type], pi |-> S("pub"), si |-> S("sys")]))

RemoveElement(m, x, local, prefix) ==
    LET key == <<"el", local, prefix, <<>>>> IN
    Yes([m EXCEPT !.tab[x] = [k \in DOMAIN @ \ {key} |-> @[k]], !.rm = @ \/ key \in DOMAIN m.tab[x]])

\* a declaration of an attribute (node i) is entered into another table
Register(m, x, i) ==
    LET key == Key("at", m.nodes[i].n, m.nodes[i].e)
    IN IF Held(m, x, key) # 0 THEN No(m) ELSE Yes([m EXCEPT !.tab[x] = (key :> i) @@ @])

Apply(m, o) ==
    LET a == o[2]
        b == o[3]
        op == o[1]
    IN
    IF a > Len(m.tab) \/ (a = 0 /\ op \in {"el", "rm", "reg"}) THEN Unsaid(m) ELSE
    CASE op = "subset" -> IF m.int # 0 THEN No(m) ELSE LET x == Opened(m) IN Yes([x EXCEPT !.int = Len(x.tab)])
      [] op = "dtd" -> Yes(Opened(m))
      [] op = "el" -> AddElement(m, a, b, o[4], o[5])
      [] op = "rm" -> RemoveElement(m, a, o[4], o[5])
      [] op = "en" -> IF a = 0 THEN IF m.int = 0 THEN No(m) ELSE AddEnt(m, m.int, b, o[4], o[5])
                      ELSE AddEnt(m, a, b, o[4], o[5])
      [] op = "reg" -> IF b \in 1..Len(m.nodes) /\ m.nodes[b].k = "atd" THEN Register(m, a, b) ELSE Yes(m)  \* nothing to be done
      [] OTHER -> Unsaid(m)

----------------------------------------------------------------------------
(* A document type that is parsed *)

RECURSIVE ReadOn(_, _)
ReadOn(txt, x) == IF x.st \in {"prolog", "dtd"} THEN ReadOn(txt, Step(txt, x).m) ELSE x

Parsed(m, e) ==
    LET key == CASE e.k = "eld" -> Key("el", e.n, <<>>) [] e.k = "atd" -> Key("at", e.n, e.e)
                 [] OTHER -> Key(IF e.par THEN "pe" ELSE "en", e.n, <<>>)
    IN IF "b" \notin DOMAIN e THEN m ELSE IF ~e.b THEN m ELSE Enter(m, m.int, key, e)

\* [m, spec] after the document B is parsed
Parse(B) ==
    LET o == Open(B) IN
    IF o.st # "ok" THEN [m |-> D0, spec |-> FALSE]
    ELSE LET x == ReadOn(o.t, Machine0) IN
         IF x.st \in {"err", "unspec"} THEN [m |-> D0, spec |-> FALSE]
         ELSE IF ~x.dt THEN [m |-> D0, spec |-> TRUE]
         ELSE [m |-> FoldLeft(Parsed, [Opened(D0) EXCEPT !.int = 1, !.d = x.d], x.d.list), spec |-> TRUE]

----------------------------------------------------------------------------
(* What can be seen.  Names are <<local name, prefix>>; elems are elements. *)

Full(q) == IF q[2] = <<>> THEN q[1] ELSE q[2] \o <<cColon>> \o q[1]

RECURSIVE Tables(_, _, _, _)
Tables(m, q, elems, x) ==
    IF x > Len(m.tab) THEN <<>>
    ELSE <<Held(m, x, <<"el", q[1], q[2], <<>>>>), Held(m, x, Key("el", Full(q), <<>>)),
           Held(m, x, Key("en", Full(q), <<>>)), Held(m, x, Key("pe", Full(q), <<>>))>>
         \o [i \in 1..Len(elems) |-> Held(m, x, <<"at", q[1], q[2], elems[i]>>)]
         \o Tables(m, q, elems, x + 1)

Mixed(m, q) ==
    LET n == IF m.int = 0 THEN 0 ELSE Held(m, m.int, Key("el", Full(q), <<>>)) IN
    IF n = 0 THEN 0 ELSE IF ElemType(m.nodes[n].c) = 4 THEN 2 ELSE 1

Found(m, q, elems) ==
    LET e == IF m.int = 0 THEN 0 ELSE Held(m, m.int, Key("en", Full(q), <<>>))
        p == IF m.int = 0 THEN 0 ELSE Held(m, m.int, Key("pe", Full(q), <<>>))
    IN Tables(m, q, elems, 1) \o <<e, e, p, Mixed(m, q)>>

----------------------------------------------------------------------------
(* Does a text (what a node is serialized to) denote a declaration *)

Denotes(m, t, e) ==
    LET r == CASE e.k = "eld" -> ElementDecl(t, 1, EmptyDTD)
               [] e.k = "atd" -> AttlistDecl(t, 1, [EmptyDTD EXCEPT !.ents = m.d.ents])
               [] OTHER -> EntityDecl(t, 1, EmptyDTD, TRUE)
    IN IF ~r.ok \/ Len(r.ev) # 1 THEN FALSE
       ELSE IF r.p # Len(t) + 1 \/ r.ev[1].k # e.k THEN FALSE
       ELSE IF e.k = "eld" THEN r.ev[1].n = e.n /\ SameModel(r.ev[1].c, e.c)
       ELSE r.ev[1] = e

----------------------------------------------------------------------------
(* What holds of every machine *)

KindOf(e) == CASE e.k = "eld" -> "el" [] e.k = "atd" -> "at" [] OTHER -> IF e.par THEN "pe" ELSE "en"
KeyOf(e) == Key(KindOf(e), e.n, IF e.k = "atd" THEN e.e ELSE <<>>)

Sound(m) ==
    /\ m.int \in 0..Len(m.tab)
    /\ \A x \in 1..Len(m.tab) : \A k \in DOMAIN m.tab[x] :
          m.tab[x][k] \in 1..Len(m.nodes) /\ KeyOf(m.nodes[m.tab[x][k]]) = k
    \* as long as nothing is removed, what was declared is found, once
    /\ ~m.rm => \A x \in 1..Len(m.tab) : \A i \in 1..Len(m.kids[x]) :
          LET n == m.kids[x][i] IN Held(m, x, KeyOf(m.nodes[n])) = n
    /\ \A x, y \in 1..Len(m.kids) : \A i \in 1..Len(m.kids[x]), j \in 1..Len(m.kids[y]) :
          m.kids[x][i] = m.kids[y][j] => x = y /\ i = j
=============================================================================
