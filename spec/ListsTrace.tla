----------------------------- MODULE ListsTrace -----------------------------
(* Payload ID list and custom field list: parsing, reading with fallback to the *)
(* packaged copy, downloading, saving.  The state is what the program knows (G, *)
(* C) and the contents of the local and the packaged files; each recorded       *)
(* operation of the real code must be a step of this machine.                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
T == INSTANCE Text
File == JsonDeserialize(IOEnv.TRACE)
Recs == File.recs
W == 8
VARIABLES l, i, G, C, loc, pkg, bad
vars == <<l, i, G, C, loc, pkg, bad>>

(* ------------------------------------------------------------ payload lists *)
Space(c) == c \in 9..13 \cup 28..32
RECURSIVE LStrip(_)
LStrip(q) == IF q # <<>> /\ Space(q[1]) THEN LStrip(Tail(q)) ELSE q
RECURSIVE RStrip(_)
RStrip(q) == IF q # <<>> /\ Space(q[Len(q)]) THEN RStrip(SubSeq(q, 1, Len(q) - 1)) ELSE q
Strip(q) == RStrip(LStrip(q))
IdText(q) == LET s == Strip(q) IN IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IdOf(q) == LET s == Strip(q) IN IF s[1] = 45 THEN -T!ValOf(Tail(s)) ELSE T!ValOf(IdText(q))
Fields(line) == T!Split(line, 44)
ValidLine(line) == /\ line # <<>> /\ line[1] # 35
                   /\ LET f == Fields(line) IN Len(f) = 2 /\ T!AllDigits(IdText(f[1]))
LineEntry(line) == LET f == Fields(line) IN [id |-> IdOf(f[1]), call |-> Strip(f[2])]
Entries(text) == LET L == SelectSeq(T!Split(text, 10), ValidLine) IN [k \in DOMAIN L |-> LineEntry(L[k])]
Parsed(g, text) == LET e == Entries(text)
                       ids == {e[k].id : k \in DOMAIN e}
                       last(x) == e[Max({k \in DOMAIN e : e[k].id = x})].call
                   IN [x \in DOMAIN g \cup ids |-> IF x \in ids THEN last(x) ELSE g[x]]
IsAt(text, p, k) == SubSeq(text, k, k + Len(p) - 1) = p
Has(text, p) == \E k \in 1..(Len(text) - Len(p) + 1) : text[k] = p[1] /\ IsAt(text, p, k)
(* "HORUS BINARY PAYLOAD ID LIST" *)
PlMark == <<72,79,82,85,83,32,66,73,78,65,82,89,32,80,65,89,76,79,65,68,32,73,68,32,76,73,83,84>>
(* "HORUSTEST" *)
CfMark == <<72,79,82,85,83,84,69,83,84>>
PlGenuine(p) == Has(p.b, PlMark)

(* --------------------------------------------------------- custom fields *)
(* JSON trees: [t |-> "obj", v |-> <<[n |-> name, v |-> tree], ...>>], lists,   *)
(* strings (character codes in v), numbers, null, booleans; "bad": not JSON.    *)
Has1(o, name) == o.t = "obj" /\ \E k \in DOMAIN o.v : o.v[k].n = name
Get(o, name) == o.v[CHOOSE k \in DOMAIN o.v : o.v[k].n = name].v
(* struct module formats in standard (unaligned) sizes *)
Size(c) == CASE c \in {120, 99, 98, 66, 63, 115, 112} -> 1       \* x c b B ? s p
             [] c \in {104, 72, 101} -> 2                        \* h H e
             [] c \in {105, 73, 108, 76, 102} -> 4               \* i I l L f
             [] c \in {113, 81, 100} -> 8                        \* q Q d
             [] OTHER -> -1
Order(c) == c \in {60, 62, 33, 61}                               \* < > ! =
(* fold over the format: count so far (-1: none), size, values, validity *)
FmtStep(a, c) ==
   IF T!IsDigit(c) THEN [a EXCEPT !.n = (IF a.n < 0 THEN 0 ELSE a.n) * 10 + (c - 48)]
   ELSE IF Space(c) THEN (IF a.n >= 0 THEN [a EXCEPT !.ok = FALSE] ELSE a)
   ELSE IF Size(c) < 0 THEN [a EXCEPT !.ok = FALSE]
   ELSE LET n == IF a.n < 0 THEN 1 ELSE a.n IN
        [n |-> -1, size |-> a.size + n * Size(c), vals |-> a.vals + (IF c = 120 THEN 0 ELSE IF c \in {115, 112} THEN 1 ELSE n), ok |-> a.ok]
Fmt(q) == LET r == FoldLeft(FmtStep, [n |-> -1, size |-> 0, vals |-> 0, ok |-> TRUE], IF q # <<>> /\ Order(q[1]) THEN Tail(q) ELSE q)
          IN [ok |-> r.ok /\ r.n < 0, size |-> r.size, vals |-> r.vals]
FieldsOk(f, n) == /\ f.t = "list" /\ Len(f.v) = n
                  /\ \A k \in DOMAIN f.v : /\ f.v[k].t = "list" /\ Len(f.v[k].v) >= 2
                                           /\ f.v[k].v[1].t = "str" /\ f.v[k].v[2].t = "str"
WellFormed(d) == /\ Has1(d, "struct") /\ Has1(d, "fields") /\ Get(d, "struct").t = "str"
                 /\ LET s == Fmt(Get(d, "struct").v) IN s.ok /\ s.size = 9 /\ FieldsOk(Get(d, "fields"), s.vals)
Def(d) == <<Get(d, "struct").v, Get(d, "fields").j>>
Others(d) == IF Has1(d, "other_payloads") /\ Get(d, "other_payloads").t = "list"
             THEN {Get(d, "other_payloads").v[k].j : k \in DOMAIN Get(d, "other_payloads").v} ELSE {}
Apply(c, e) == IF ~WellFormed(e.v) THEN c
               ELSE LET N == {e.n} \cup Others(e.v) IN [x \in DOMAIN c \cup N |-> IF x \in N THEN Def(e.v) ELSE c[x]]
CfParsed(c, tree) == IF tree.t # "obj" THEN c ELSE FoldLeft(Apply, c, tree.v)
CfGenuine(p) == Has(p.b, CfMark) /\ p.tree.t = "obj"

(* ----------------------------------------------------------------- the machine *)
(* a file is readable text: UTF-8 *)
Utf8Step(a, c) == IF a < 0 THEN a
                  ELSE IF a > 0 THEN (IF c \in 128..191 THEN a - 1 ELSE -1)
                  ELSE IF c < 128 THEN 0 ELSE IF c \in 194..223 THEN 1 ELSE IF c \in 224..239 THEN 2 ELSE IF c \in 240..244 THEN 3 ELSE -1
Readable(f) == f.k = "file" /\ FoldLeft(Utf8Step, 0, f.b) = 0
Known(list) == IF list = "pl" THEN G ELSE C
Parse(list, f) == IF list = "pl" THEN Parsed(G, f.b) ELSE CfParsed(C, f.tree)
ReadFrom(list, a, p) == IF Readable(a) THEN Parse(list, a) ELSE IF Readable(p) THEN Parse(list, p) ELSE Known(list)
Genuine(list, r) == r.k = "page" /\ (IF list = "pl" THEN PlGenuine(r) ELSE CfGenuine(r))

Fn(sq) == [x \in {sq[k][1] : k \in DOMAIN sq} |-> sq[CHOOSE k \in DOMAIN sq : sq[k][1] = x][2]]
FnC(sq) == [x \in {sq[k][1] : k \in DOMAIN sq} |-> LET k == CHOOSE k \in DOMAIN sq : sq[k][1] = x IN <<sq[k][2], sq[k][3]>>]
Show(list, sq) == IF list = "pl" THEN Fn(sq) ELSE FnC(sq)
Nothing == [k |-> "absent", b |-> <<>>, tree |-> [t |-> "bad"]]
Both == [pl |-> Nothing, cf |-> Nothing]
Init == l \in 1..W /\ i = 0 /\ G = Fn(File.defaults.pl) /\ C = FnC(File.defaults.cf) /\ loc = Both /\ pkg = Both /\ bad = ""
E == Recs[l].ev[i + 1]
Same(f, s) == f.k = s.k /\ f.b = s.b
Step ==
  /\ l <= Len(Recs) /\ i < Len(Recs[l].ev) /\ i' = i + 1 /\ l' = l
  /\ LET L  == E.list
         lo == IF E.setlocal.set THEN E.setlocal ELSE loc[L]        \* what the user put in place before the operation
         pk == IF E.setpkg.set THEN E.setpkg ELSE pkg[L]
         downloads == E.fn = "download" \/ (E.fn = "init" /\ ~E.nodl)
         got == downloads /\ Genuine(L, E.remote)
         saves == got /\ (E.save \/ E.fn = "init") /\ lo.k # "dir"
         lo2 == IF saves THEN [k |-> "file", b |-> E.remote.b, tree |-> E.remote.tree] ELSE lo
         none == E.fn = "download" /\ ~got
         v == IF E.fn = "parse" THEN Parse(L, E.text) ELSE IF got THEN Parse(L, E.remote) ELSE ReadFrom(L, lo, pk)
     IN /\ loc' = [loc EXCEPT ![L] = [k |-> lo2.k, b |-> lo2.b, tree |-> lo2.tree]]
        /\ pkg' = [pkg EXCEPT ![L] = [k |-> pk.k, b |-> pk.b, tree |-> pk.tree]]
        /\ G' = IF L = "pl" /\ ~none THEN v ELSE G
        /\ C' = IF L = "cf" /\ ~none THEN v ELSE C
        /\ bad' = IF E.raised # "" THEN "an exception reached the caller"
                  ELSE IF ~Same(E.after, lo2) THEN (IF got THEN "the local copy is not what was downloaded" ELSE "the local copy was changed without a good download")
                  ELSE IF ~Same(E.pkgc, pk) THEN "the packaged copy was changed"
                  ELSE IF E.asked # (IF downloads THEN 1 ELSE 0) THEN "wrong number of downloads"
                  ELSE IF E.res.none # none THEN "a download is reported as good although it failed, or the other way round"
                  ELSE IF ~none /\ Show(L, E.res.l) # v THEN "the list is not what the file declares"
                  ELSE ""
NextRec == /\ l <= Len(Recs) /\ i = Len(Recs[l].ev) /\ l' = l + W /\ i' = 0 /\ bad' = ""
           /\ G' = Fn(File.defaults.pl) /\ C' = FnC(File.defaults.cf) /\ loc' = Both /\ pkg' = Both
Next == bad = "" /\ (Step \/ NextRec)
Accepted == bad = ""
=============================================================================
