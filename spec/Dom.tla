-------------------------------- MODULE Dom --------------------------------
(***************************************************************************)
(* The tree of a document as users edit it (property C05).                 *)
(*                                                                         *)
(* Nodes are numbered as they come into being.  A node is in exactly one   *)
(* list: the children of a node, the attributes of an element, or a chain  *)
(* of siblings without a parent (which may be the node alone).  All links  *)
(* (parent, first and last child, siblings) are derived from these lists,  *)
(* so they agree by construction; what is checked is that the links of the *)
(* real nodes are the derived ones after every operation.                  *)
(*                                                                         *)
(* A machine is a record of                                                *)
(*   k      kind of each node: "doc" "el" "tx" "co" "pi" "er" "at" "dtd"   *)
(*          "ent"                                                          *)
(*   nm     name (local part), t  own text, ref  the entity an "er" refers *)
(*          to or 0, ow  owner document (-1: not said)                     *)
(*   kids, attrs   the children and the attributes of each node            *)
(*   loose  the set of the chains without a parent                         *)
(*   ns, defs      name space of an element (<<>> or <<prefix, uri>>) and  *)
(*          the declarations on it                                         *)
(*                                                                         *)
(* Apply(m, o) is [m, err, spec]: the machine after operation o, whether   *)
(* the operation is refused, and FALSE if o is not specified there.        *)
(***************************************************************************)
EXTENDS Chars, Integers

M0 == [k |-> <<>>, nm |-> <<>>, t |-> <<>>, ref |-> <<>>, ow |-> <<>>, kids |-> <<>>, attrs |-> <<>>, loose |-> {},
       ns |-> <<>>, defs |-> <<>>]

Count(m) == Len(m.k)
Nodes(m) == 1..Count(m)

\* a new node, on its own
New(m, kind, name, text, ref, ow) ==
    LET n == Count(m) + 1 IN
    [k |-> Append(m.k, kind), nm |-> Append(m.nm, name), t |-> Append(m.t, text), ref |-> Append(m.ref, ref),
     ow |-> Append(m.ow, ow), kids |-> Append(m.kids, <<>>), attrs |-> Append(m.attrs, <<>>),
     loose |-> m.loose \cup {<<n>>}, ns |-> Append(m.ns, <<>>), defs |-> Append(m.defs, <<>>)]

IndexIn(s, n) == CHOOSE i \in 1..Len(s) : s[i] = n
InList(s, n) == \E i \in 1..Len(s) : s[i] = n
Without(s, n) == SelectSeq(s, LAMBDA x : x # n)
Subst(s, n, c) == [i \in 1..Len(s) |-> IF s[i] = n THEN c ELSE s[i]]

Parent(m, n) == IF \E p \in Nodes(m) : InList(m.kids[p], n) THEN CHOOSE p \in Nodes(m) : InList(m.kids[p], n) ELSE 0
Element(m, n) == IF \E p \in Nodes(m) : InList(m.attrs[p], n) THEN CHOOSE p \in Nodes(m) : InList(m.attrs[p], n) ELSE 0
Chain(m, n) == CHOOSE c \in m.loose : InList(c, n)

\* the list a node is in
ListOf(m, n) ==
    IF Parent(m, n) # 0 THEN m.kids[Parent(m, n)]
    ELSE IF Element(m, n) # 0 THEN m.attrs[Element(m, n)]
    ELSE Chain(m, n)

\* that list becomes s
SetList(m, n, s) ==
    IF Parent(m, n) # 0 THEN [m EXCEPT !.kids[Parent(m, n)] = s]
    ELSE IF Element(m, n) # 0 THEN [m EXCEPT !.attrs[Element(m, n)] = s]
    ELSE [m EXCEPT !.loose = (@ \ {Chain(m, n)}) \cup (IF s = <<>> THEN {} ELSE {s})]

Neighbour(m, n, d) ==
    LET s == ListOf(m, n)
        i == IndexIn(s, n) + d
    IN IF i \in 1..Len(s) THEN s[i] ELSE 0
Next1(m, n) == Neighbour(m, n, 1)
Prev1(m, n) == Neighbour(m, n, -1)
First(m, n) == IF m.ref[n] # 0 THEN m.ref[n] ELSE IF m.kids[n] = <<>> THEN 0 ELSE Head(m.kids[n])
LastOf(m, n) == IF m.ref[n] # 0 THEN m.ref[n] ELSE IF m.kids[n] = <<>> THEN 0 ELSE m.kids[n][Len(m.kids[n])]

RECURSIVE Ancestors(_, _)
Ancestors(m, n) == LET p == Parent(m, n) IN IF p = 0 THEN {} ELSE {p} \cup Ancestors(m, p)

\* n taken out of where it is: it is in no list
Take(m, n) == SetList(m, n, Without(ListOf(m, n), n))
\* n on its own
Detach(m, n) == LET x == Take(m, n) IN [x EXCEPT !.loose = @ \cup {<<n>>}]

\* may c be linked to n
Refused(m, n, c) ==
    \/ c = 0 \/ c = n
    \/ m.k[c] = "doc"
    \/ (m.k[c] = "at") # (m.k[n] = "at")
    \/ c \in Ancestors(m, n)

RECURSIVE ContentOf(_, _), Concat(_, _, _)
Concat(m, s, i) == IF i > Len(s) THEN <<>> ELSE ContentOf(m, s[i]) \o Concat(m, s, i + 1)
ContentOf(m, n) ==
    IF m.k[n] \in {"tx", "co", "pi", "er", "ent"} THEN m.t[n] ELSE Concat(m, m.kids[n], 1)

RECURSIVE WalkOf(_, _), WalkAll(_, _, _)
WalkAll(m, s, i) == IF i > Len(s) THEN <<>> ELSE WalkOf(m, s[i]) \o WalkAll(m, s, i + 1)
WalkOf(m, n) == <<n>> \o (IF m.k[n] = "er" THEN <<>> ELSE WalkAll(m, m.kids[n], 1))

----------------------------------------------------------------------------
(* Values of attributes: text and references to entities *)

RECURSIVE CharVal(_, _, _, _)
CharVal(v, i, base, acc) ==    \* [p, c]: position of the ";" (0: none), value
    IF i > Len(v) THEN [p |-> 0, c |-> 0]
    ELSE IF v[i] = cSemi THEN [p |-> i, c |-> acc]
    ELSE IF HexVal(v[i]) >= base THEN [p |-> 0, c |-> 0]
    ELSE CharVal(v, i + 1, base, IF acc > 1114111 THEN acc ELSE acc * base + HexVal(v[i]))

Predefined(name) == CASE name = S("lt") -> <<60>> [] name = S("gt") -> <<62>> [] name = S("amp") -> <<38>>
                      [] name = S("apos") -> <<39>> [] name = S("quot") -> <<34>> [] OTHER -> <<>>

\* the pieces of a value, [ok, ps]: ps a sequence of <<"tx", text>> and <<"er", name>>
RECURSIVE Pieces(_, _, _, _)
Flush(ps, buf) == IF buf = <<>> THEN ps ELSE Append(ps, <<"tx", buf>>)
BadPieces == [ok |-> FALSE, ps |-> <<>>]
Pieces(v, i, ps, buf) ==
    IF i > Len(v) THEN [ok |-> TRUE, ps |-> Flush(ps, buf)]
    ELSE IF v[i] # cAmp THEN Pieces(v, i + 1, ps, Append(buf, v[i]))
    ELSE IF At(v, i + 1) = cHash
         THEN LET hex == At(v, i + 2) = cX
                  a == IF hex THEN i + 3 ELSE i + 2
                  r == CharVal(v, a, IF hex THEN 16 ELSE 10, 0)
              IN IF r.p = 0 \/ r.p = a \/ ~IsChar(r.c) THEN BadPieces ELSE Pieces(v, r.p + 1, ps, Append(buf, r.c))
    ELSE LET e == Find(v, i, LAMBDA c : c = cSemi)
             name == SubSeq(v, i + 1, e - 1)
         IN IF e > Len(v) \/ ~IsNameText(name) THEN BadPieces
            ELSE IF Predefined(name) # <<>> THEN Pieces(v, e + 1, ps, buf \o Predefined(name))
            ELSE Pieces(v, e + 1, Append(Flush(ps, buf), <<"er", name>>), <<>>)

IntSubset(m, d) == IF \E n \in Nodes(m) : m.k[n] = "dtd" /\ m.ow[n] = d
                   THEN CHOOSE n \in Nodes(m) : m.k[n] = "dtd" /\ m.ow[n] = d ELSE 0

\* the entity of that name in document d, or 0
EntityOf(m, d, name) ==
    LET x == IntSubset(m, d)
        S1 == {n \in Nodes(m) : m.k[n] = "ent" /\ m.nm[n] = name /\ x # 0 /\ Parent(m, n) = x}
    IN IF S1 = {} THEN 0 ELSE CHOOSE n \in S1 : TRUE

\* a reference in document d
NewRef(m, d, name) ==
    LET e == EntityOf(m, d, name) IN New(m, "er", name, IF e = 0 THEN <<>> ELSE m.t[e], e, d)

\* pieces as children of node n, in document d
RECURSIVE AddPieces(_, _, _, _, _)
AddPieces(m, n, d, ps, i) ==
    IF i > Len(ps) THEN m
    ELSE LET x == IF ps[i][1] = "tx" THEN New(m, "tx", <<>>, ps[i][2], 0, d) ELSE NewRef(m, d, ps[i][2])
             c == Count(x)
             y == Take(x, c)
         IN AddPieces([y EXCEPT !.kids[n] = Append(@, c)], n, d, ps, i + 1)

\* entities referred to for the first time get their parsed text as children,
\* which must be free of references here
RECURSIVE Fill(_, _, _, _)
Fill(m, d, ps, i) ==
    IF i > Len(ps) THEN m
    ELSE LET e == IF ps[i][1] = "er" THEN EntityOf(m, d, ps[i][2]) ELSE 0 IN
         IF e = 0 \/ m.kids[e] # <<>> THEN Fill(m, d, ps, i + 1)
         ELSE Fill(AddPieces(m, e, d, Pieces(m.t[e], 1, <<>>, <<>>).ps, 1), d, ps, i + 1)

PlainEntities(m) == \A n \in Nodes(m) : m.k[n] = "ent" =>
    LET r == Pieces(m.t[n], 1, <<>>, <<>>) IN r.ok /\ \A i \in 1..Len(r.ps) : r.ps[i][1] = "tx"

\* a new attribute in document d
NewAttr(m, d, name, ps) ==
    LET x == New(m, "at", name, <<>>, 0, d) IN Fill(AddPieces(x, Count(x), d, ps, 1), d, ps, 1)

----------------------------------------------------------------------------
(* Operations.  An operation is <<name, a, b, s, u>>: nodes a and b (0: no  *)
(* node), texts s and u.                                                    *)

Yes(m) == [m |-> m, err |-> FALSE, spec |-> TRUE]
No(m) == [m |-> m, err |-> TRUE, spec |-> TRUE]
Unsaid(m) == [m |-> m, err |-> FALSE, spec |-> FALSE]

Join(m, n, c) ==      \* c is put at the end of the list that n is in
    LET x == Take(m, c) IN SetList(x, n, Append(ListOf(x, n), c))

AddSibling(m, n, c) ==
    IF m.k[n] = "doc" \/ Refused(m, n, c) THEN No(m)
    ELSE IF m.k[n] = "tx" /\ m.k[c] = "tx" /\ Next1(m, n) = 0
         THEN LET x == Detach(m, c) IN Yes([x EXCEPT !.t[n] = @ \o m.t[c]])
    ELSE Yes(Join(m, n, c))

AddChild(m, n, c) ==
    IF m.k[n] \in {"tx", "co"}
    THEN IF c # 0 /\ m.k[c] = m.k[n] THEN Yes([m EXCEPT !.t[n] = @ \o m.t[c]]) ELSE No(m)
    ELSE IF m.k[n] \in {"pi", "er"} \/ c = 0 THEN No(m)
    ELSE IF m.k[c] = "at" \/ (m.k[n] # "at" /\ Refused(m, n, c)) THEN No(m)
    ELSE IF LastOf(m, n) = c THEN Yes(m)
    ELSE IF m.kids[n] = <<>> THEN LET x == Take(m, c) IN Yes([x EXCEPT !.kids[n] = <<c>>])
    ELSE AddSibling(m, LastOf(m, n), c)

Replace(m, n, c) ==
    IF Refused(m, n, c) \/ (ListOf(m, n) = <<n>> /\ Parent(m, n) = 0) THEN Yes(m)
    ELSE LET x == Take(m, c)
             y == SetList(x, n, Subst(ListOf(x, n), n, c))
         IN Yes([y EXCEPT !.loose = @ \cup {<<n>>}])

AddContent(m, n, s) ==
    CASE m.k[n] = "er" -> No(m)
      [] m.k[n] \in {"tx", "co", "pi"} -> Yes([m EXCEPT !.t[n] = @ \o s])
      [] OTHER -> IF m.kids[n] # <<>> /\ m.k[LastOf(m, n)] = "tx"
                  THEN Yes([m EXCEPT !.t[LastOf(m, n)] = @ \o s])
                  ELSE LET x == New(m, "tx", <<>>, s, 0, IF m.k[n] = "doc" THEN -1 ELSE m.ow[n]) IN AddChild(x, n, Count(x))

SetDocumentElement(m, d, r) ==
    IF r = 0 THEN Yes(m)
    ELSE IF Refused(m, d, r) THEN No(m)
    ELSE LET els == SelectSeq(m.kids[d], LAMBDA x : m.k[x] = "el") IN
         IF els = <<>> THEN AddChild(m, d, r)
         ELSE IF els[1] = r THEN Yes(m)
         ELSE Replace(m, els[1], r)

SetAttribute(m, e, name, v) ==
    LET r == Pieces(v, 1, <<>>, <<>>) IN
    IF ~r.ok THEN No(m)
    ELSE IF \E i \in 1..Len(m.attrs[e]) : m.nm[m.attrs[e][i]] = name
         THEN IF \E i \in 1..Len(r.ps) : r.ps[i][1] = "er" THEN Unsaid(m) ELSE No(m)
    ELSE LET x == NewAttr(m, m.ow[e], name, r.ps)
             a == Count(m) + 1
             y == Take(x, a)
         IN Yes([y EXCEPT !.attrs[e] = Append(@, a)])

CreateIntSubset(m, d, name) ==
    IF IntSubset(m, d) # 0 THEN No(m)
    ELSE LET x == New(m, "dtd", name, <<>>, 0, d)
             c == Count(x)
             y == Take(x, c)
             s == m.kids[d]
             f == Find(s, 1, LAMBDA n : m.k[n] = "el")
         IN Yes([y EXCEPT !.kids[d] = SubSeq(s, 1, f - 1) \o <<c>> \o SubSeq(s, f, Len(s))])

AddEntity(m, d, name, text) ==
    LET x == IntSubset(m, d) IN
    IF x = 0 THEN No(m)
    ELSE IF EntityOf(m, d, name) # 0 THEN No(m)
    ELSE LET y == New(m, "ent", name, text, 0, d) IN AddChild(y, x, Count(y))

\* an attribute which begins the list of an element does not know the
\* element: what moves it is not specified
Heads(m, n) == m.k[n] = "at" /\ Element(m, n) # 0 /\ Prev1(m, n) = 0

\* n is part of the value of an attribute
IsValue(m, n) == Parent(m, n) # 0 /\ m.k[Parent(m, n)] = "at"

RECURSIVE Owned(_, _, _), OwnAll(_, _, _)
OwnAll(m, S1, d) == IF S1 = {} THEN m
                    ELSE LET n == CHOOSE n \in S1 : TRUE IN OwnAll(Owned(m, n, d), S1 \ {n}, d)
\* the tree under n belongs to document d
Owned(m, n, d) ==
    IF m.ow[n] = d THEN m
    ELSE LET x == OwnAll(m, {c \in Nodes(m) : InList(m.kids[n], c)} , d)
             at == {c \in Nodes(m) : InList(m.attrs[n], c)}
             y == OwnAll(x, UNION {{c \in Nodes(m) : InList(m.kids[a], c)} : a \in at}, d)
         IN [y EXCEPT !.ow = [i \in Nodes(m) |-> IF i = n \/ i \in at THEN d ELSE @[i]]]

Apply(m, o) ==
    LET a == o[2]
        b == o[3]
        s == o[4]
        u == o[5]
        op == o[1]
        ok == a \in 0..Count(m) /\ b \in 0..Count(m)
    IN
    IF ~ok THEN Unsaid(m) ELSE
    CASE op = "doc" -> Yes(New(m, "doc", <<>>, <<>>, 0, 0))
      [] op = "el" -> Yes(New(m, "el", s, <<>>, 0, a))
      [] op = "tx" -> Yes(New(m, "tx", <<>>, s, 0, a))
      [] op = "co" -> Yes(New(m, "co", <<>>, s, 0, a))
      [] op = "pi" -> Yes(New(m, "pi", s, u, 0, a))
      [] op = "er" -> IF s = <<>> THEN No(m) ELSE Yes(NewRef(m, a, s))
      [] op = "cr" -> IF s = <<>> THEN No(m)
                      ELSE IF s[1] # cAmp THEN Yes(New(m, "er", s, <<>>, 0, a))
                      ELSE LET e == IF s[Len(s)] = cSemi THEN Len(s) - 1 ELSE Len(s) IN
                           IF e = 1 THEN Unsaid(m) ELSE Yes(New(m, "er", SubSeq(s, 2, e), <<>>, 0, a))
      [] op = "at" -> LET r == Pieces(u, 1, <<>>, <<>>) IN
                      IF ~PlainEntities(m) THEN Unsaid(m) ELSE IF r.ok THEN Yes(NewAttr(m, a, s, r.ps)) ELSE No(m)
      [] op = "child" -> IF b # 0 /\ (\/ m.k[b] \in {"dtd", "ent"}
                                      \/ m.k[a] = "at" /\ m.k[b] \notin {"tx", "er", "at"}
                                      \/ m.k[a] \in {"dtd", "ent"} /\ m.k[b] \notin {"co", "pi"})
                         THEN Unsaid(m) ELSE AddChild(m, a, b)
      [] op = "sibling" -> IF b # 0 /\ (m.k[b] \in {"dtd", "ent"} \/ Heads(m, b) \/ IsValue(m, a))
                           THEN Unsaid(m)
                           ELSE IF m.k[a] = "at" /\ b # 0 /\ m.k[b] = "at" /\ Element(m, a) # 0 /\ Element(m, b) # 0
                           THEN Unsaid(m) ELSE AddSibling(m, a, b)
      [] op = "replace" -> IF \/ m.k[a] \in {"doc", "dtd", "ent"} \/ Heads(m, a)
                              \/ b # 0 /\ (m.k[b] \in {"dtd", "ent"} \/ Heads(m, b))
                              \/ IsValue(m, a)
                           THEN Unsaid(m) ELSE Replace(m, a, b)
      [] op = "content" -> IF m.k[a] \in {"dtd", "ent"} THEN Unsaid(m) ELSE AddContent(m, a, s)
      [] op = "root" -> IF b # 0 /\ m.k[b] \in {"dtd", "ent"} THEN Unsaid(m) ELSE SetDocumentElement(m, a, b)
      [] op = "attr" -> IF ~PlainEntities(m) THEN Unsaid(m) ELSE SetAttribute(m, a, s, u)
      [] op = "subset" -> IF \E i \in 1..Len(m.kids[a]) : m.k[m.kids[a][i]] = "tx" THEN Unsaid(m) ELSE CreateIntSubset(m, a, s)
      [] op = "entity" -> AddEntity(m, a, s, u)
      [] op = "declare" -> Yes([m EXCEPT !.defs[a] = Append(@, <<s, u>>)])
      [] op = "use" -> Yes([m EXCEPT !.ns[a] = <<s, u>>])
      [] op = "own" -> IF m.k[a] \in {"doc", "dtd", "ent"} \/ \E c \in Nodes(m) : m.k[c] \in {"dtd", "ent"} THEN Unsaid(m)
                       ELSE Yes(Owned(m, a, b))
      [] OTHER -> Unsaid(m)

----------------------------------------------------------------------------
(* What can be seen of a node: <<parent, first, last, next, previous,       *)
(* attributes, content, name, owner, name space, declarations, walk>>       *)

NameOf(m, n) == IF m.ns[n] # <<>> /\ m.ns[n][1] # <<>> THEN m.ns[n][1] \o <<cColon>> \o m.nm[n] ELSE m.nm[n]

Seen(m, n) ==
    <<Parent(m, n), First(m, n), LastOf(m, n), Next1(m, n), Prev1(m, n),
      m.attrs[n], ContentOf(m, n),
      IF m.k[n] \in {"el", "pi", "er", "at", "dtd", "ent"} THEN NameOf(m, n) ELSE <<>>,
      IF m.ow[n] = -1 THEN 0 ELSE m.ow[n],
      m.ns[n], m.defs[n],
      IF Parent(m, n) = 0 THEN WalkOf(m, n) ELSE <<>>>>

----------------------------------------------------------------------------
(* What holds of every machine *)

\* every node is in exactly one list, once
OnePlace(m) ==
    \A n \in Nodes(m) :
        Cardinality({<<"k", p>> : p \in {p \in Nodes(m) : InList(m.kids[p], n)}} \cup
                    {<<"a", p>> : p \in {p \in Nodes(m) : InList(m.attrs[p], n)}} \cup
                    {<<"l", c>> : c \in {c \in m.loose : InList(c, n)}}) = 1
        /\ Cardinality({i \in 1..Len(ListOf(m, n)) : ListOf(m, n)[i] = n}) = 1

\* no node is its own ancestor, and a walk from the nodes without a parent
\* sees every node once
Acyclic(m) ==
    LET roots == {n \in Nodes(m) : Parent(m, n) = 0}
    IN /\ \A n \in Nodes(m) : \E r \in roots : InList(WalkOf(m, r), n)
       /\ \A r \in roots : \A i, j \in 1..Len(WalkOf(m, r)) : WalkOf(m, r)[i] = WalkOf(m, r)[j] => i = j
       /\ \A r, q \in roots : r # q => \A i \in 1..Len(WalkOf(m, r)) : ~InList(WalkOf(m, q), WalkOf(m, r)[i])

LinksAgree(m) ==
    \A n \in Nodes(m) :
        /\ Next1(m, n) # 0 => Prev1(m, Next1(m, n)) = n /\ Parent(m, Next1(m, n)) = Parent(m, n)
        /\ Prev1(m, n) # 0 => Next1(m, Prev1(m, n)) = n
        /\ m.kids[n] # <<>> => Prev1(m, First(m, n)) = 0 /\ Next1(m, LastOf(m, n)) = 0 /\ Parent(m, First(m, n)) = n
        /\ m.k[n] = "doc" => Parent(m, n) = 0
        /\ m.k[n] \in {"tx", "co", "pi", "er"} => m.kids[n] = <<>>

Sound(m) == OnePlace(m) /\ Acyclic(m) /\ LinksAgree(m)
=============================================================================
