------------------------------ MODULE Provider ------------------------------
(***************************************************************************)
(* The Sqlite3 provider: a directory of database files with localisation   *)
(* strings, from which strings and details are asked.                      *)
(*                                                                         *)
(* A repository (constant of a scenario):                                  *)
(*   files     names of the database files, without extension              *)
(*   comps     set of [f, c, d]    file f has component c, of default d    *)
(*   contribs  set of [f, c, t, w] w contributed to language t             *)
(*   rows      set of [f, c, i, t, s]  string s                            *)
(*   sub       language tag -> its subtags                                 *)
(* The file Aio holds many components, every other file the component that *)
(* it is named after.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Aio == "__all_in_one__"

InAio(db, c) == Aio \in db.files /\ \E x \in db.comps : x.f = Aio /\ x.c = c
InOwn(db, c) == c \in db.files /\ c # Aio
\* Where the strings of a component are looked for, in this order.
Sources(db, c) == (IF InAio(db, c) THEN <<Aio>> ELSE <<>>) \o (IF InOwn(db, c) THEN <<c>> ELSE <<>>)
Components(db) == {x.c : x \in {y \in db.comps : y.f = Aio /\ Aio \in db.files}}
                  \union (db.files \ {Aio})
Known(db, c) == Sources(db, c) # <<>>

RowsOf(db, f, c, i) == {x \in db.rows : x.f = f /\ x.c = c /\ x.i = i}

\* Rows whose language is the first n subtags of the asked language, or starts with these.
AtLevel(db, f, c, i, t, n) ==
  LET p == SubSeq(db.sub[t], 1, n) IN
  {x \in RowsOf(db, f, c, i) : Len(db.sub[x.t]) >= n /\ SubSeq(db.sub[x.t], 1, n) = p}

\* Strings for a language in one file: the asked language, then without its last subtag, ...
RECURSIVE Search(_, _, _, _, _, _)
Search(db, f, c, i, t, n) ==
  IF n = 0 THEN [n |-> 0, set |-> {}]
  ELSE LET x == AtLevel(db, f, c, i, t, n) IN
       IF x # {} THEN [n |-> n, set |-> x] ELSE Search(db, f, c, i, t, n - 1)

Find(db, c, i, t) ==
  LET s == Sources(db, c)
      r == [k \in DOMAIN s |-> Search(db, s[k], c, i, t, Len(db.sub[t]))]
      hits == {k \in DOMAIN s : r[k].set # {}}
  IN IF hits = {} THEN [n |-> 0, set |-> {}] ELSE r[Min(hits)]

\* The rows of which one is answered: the very language if it is there.
Best(db, t, found) ==
  LET p == SubSeq(db.sub[t], 1, found.n)
      e == {x \in found.set : db.sub[x.t] = p}
  IN IF e # {} THEN e ELSE found.set

Exact(db, c, i, t) ==
  LET s == Sources(db, c)
      r == [k \in DOMAIN s |-> {x \in RowsOf(db, s[k], c, i) : x.t = t}]
      hits == {k \in DOMAIN s : r[k] # {}}
  IN IF hits = {} THEN {} ELSE r[Min(hits)]

-----------------------------------------------------------------------------
(* Details *)
InSources(db, c, f) == \E k \in DOMAIN Sources(db, c) : Sources(db, c)[k] = f
Languages(db, c) == {x.t : x \in {y \in db.contribs : y.c = c /\ InSources(db, c, y.f)}}
Count(db, c, t) == Cardinality({x \in db.rows : x.c = c /\ x.t = t /\ InSources(db, c, x.f)})
By(db, c, t) == {x.w : x \in {y \in db.contribs : y.c = c /\ y.t = t /\ InSources(db, c, y.f)}}
Total(db, c) == FoldSet(LAMBDA t, a : a + Count(db, c, t), 0, Languages(db, c))

DefaultIn(db, f, c) == {x.d : x \in {y \in db.comps : y.f = f /\ y.c = c}}
\* Default language of a component, or "" if there is none.
Default(db, c) ==
  LET s == Sources(db, c)
      hits == {k \in DOMAIN s : DefaultIn(db, s[k], c) # {}}
  IN IF hits = {} THEN "" ELSE CHOOSE d \in DefaultIn(db, s[Min(hits)], c) : TRUE

Flaw(db, c) == IF Default(db, c) = "" THEN "DefaultLanguage"
               ELSE IF Default(db, c) \notin Languages(db, c) THEN "InvalidDefaultLanguage" ELSE ""
Flaws(db) == {Flaw(db, c) : c \in Components(db)} \ {""}

IdLanguages(db, c, i) == {x.t : x \in {y \in db.rows : y.c = c /\ y.i = i /\ InSources(db, c, y.f)}}

RLanguages(db) == UNION {Languages(db, c) : c \in Components(db)}
RCount(db, t) ==
  FoldSet(LAMBDA c, a : a + Count(db, c, t), 0, {c \in Components(db) : t \in Languages(db, c)})
RTotal(db) == FoldSet(LAMBDA c, a : a + Total(db, c), 0, Components(db))
RDefault(db) == IF "application" \in Components(db) THEN Default(db, "application") ELSE ""
RBy(db) == UNION {UNION {By(db, c, t) : t \in Languages(db, c)} : c \in Components(db)}

\* q is the ratio in units of 1/10000, rounded; nothing is said if the default has no strings.
RatioOk(q, count, default) ==
  default = 0 \/ (LET x == q * default - 10000 * count IN x <= default /\ x >= 0 - default)

(***************************************************************************)
(* Whether the answer o to a call is allowed.                              *)
(***************************************************************************)
SetOf(l) == {l[k] : k \in DOMAIN l}
Pairs(set) == {<<x.s, x.t>> : x \in set}
Fails(o, e) == o.r = "err" /\ o.e \in e
NoDuplicates(l) == Cardinality(SetOf(l)) = Len(l)

ProviderAllows(db, op, o) ==
  CASE o.r \in {"panic", "crash", "hang"} -> FALSE
    [] op.op \in {"string", "exact", "strings"} /\ ~Known(db, op.c) -> Fails(o, {"ComponentNotFound"})
    [] op.op = "string" ->
         LET found == Find(db, op.c, op.i, op.t) IN
         /\ o.r = "ok"
         /\ IF found.set = {} THEN o.l = <<>>
            ELSE Len(o.l) = 1 /\ o.l[1] \in Pairs(Best(db, op.t, found))
    [] op.op = "strings" ->
         LET found == Find(db, op.c, op.i, op.t) IN
         o.r = "ok" /\ SetOf(o.l) = Pairs(found.set) /\ Len(o.l) = Cardinality(found.set)
    [] op.op = "exact" ->
         LET found == Exact(db, op.c, op.i, op.t) IN
         /\ o.r = "ok"
         /\ IF found = {} THEN o.l = <<>> ELSE Len(o.l) = 1 /\ o.l[1] \in Pairs(found)
    [] op.op \in {"iddet", "compdet", "repdet"} /\ Flaws(db) # {} -> Fails(o, Flaws(db))
    [] op.op \in {"iddet", "compdet"} /\ ~Known(db, op.c) -> Fails(o, {"ComponentNotFound"})
    [] op.op = "iddet" ->
         /\ o.r = "ok" /\ o.def = Default(db, op.c)
         /\ SetOf(o.l) = IdLanguages(db, op.c, op.i) /\ NoDuplicates(o.l)
    [] op.op = "compdet" ->
         LET d == Default(db, op.c) IN
         /\ o.r = "ok" /\ o.def = d /\ o.n = Total(db, op.c)
         /\ {x.t : x \in SetOf(o.l)} = Languages(db, op.c)
         /\ \A x \in SetOf(o.l) :
              /\ x.n = Count(db, op.c, x.t)
              /\ RatioOk(x.q, x.n, Count(db, op.c, d))
              /\ SetOf(x.by) = By(db, op.c, x.t) /\ NoDuplicates(x.by)
    [] op.op = "repdet" ->
         /\ o.r = "ok" /\ o.def = RDefault(db) /\ o.n = RTotal(db)
         /\ SetOf(o.comps) = Components(db) /\ NoDuplicates(o.comps)
         /\ SetOf(o.by) = RBy(db) /\ NoDuplicates(o.by)
         /\ {x.t : x \in SetOf(o.l)} = RLanguages(db)
         /\ \A x \in SetOf(o.l) :
              /\ x.n = RCount(db, x.t)
              /\ RDefault(db) # "" => RatioOk(x.q, x.n, RCount(db, RDefault(db)))

(***************************************************************************)
(* Opening a directory.  An entry is [kind, stem, ext, tables, versions]   *)
(*   kind      "db", "raw" (a file that is no database) or "dir"           *)
(*   tables    name -> sequence of columns [n, t, nn, pk, df]: name, type, *)
(*             not null, primary key, has a default                        *)
(*   versions  values of schema_version                                    *)
(***************************************************************************)
Col(n, t, nn) == [n |-> n, t |-> t, nn |-> nn, pk |-> FALSE, df |-> FALSE]
RowId == [n |-> "rowID", t |-> "INTEGER", nn |-> TRUE, pk |-> TRUE, df |-> FALSE]
Required ==
  [component |-> <<RowId, Col("identifier", "TEXT", TRUE), Col("languageTag", "TEXT", TRUE),
                   Col("comment", "TEXT", FALSE), Col("added", "DATE", TRUE)>>,
   contributor |-> <<RowId, Col("component", "TEXT", TRUE), Col("languageTag", "TEXT", TRUE),
                     Col("contributor", "TEXT", TRUE), Col("substituteFor", "TEXT", FALSE),
                     Col("comment", "TEXT", FALSE), Col("verified", "DATE", FALSE)>>,
   language |-> <<RowId, Col("tag", "TEXT", TRUE), Col("englishName", "TEXT", FALSE),
                  Col("added", "DATE", TRUE)>>,
   languageData |-> <<RowId, Col("component", "TEXT", TRUE), Col("languageTag", "TEXT", TRUE),
                      Col("count", "INTEGER", TRUE), Col("ratio", "REAL", TRUE)>>,
   metadata |-> << >>,   \* only its being there is promised; the version is read from it
   pattern |-> <<RowId, Col("component", "TEXT", TRUE), Col("identifier", "TEXT", TRUE),
                 Col("languageTag", "TEXT", TRUE), Col("string", "TEXT", TRUE),
                 Col("comment", "TEXT", FALSE), Col("verified", "DATE", FALSE)>>]

\* Every table, each with at least the required columns, at their positions.
SchemaOk(e) ==
  /\ e.kind = "db"
  /\ e.versions = <<"1.0">>
  /\ \A t \in DOMAIN Required :
       /\ t \in DOMAIN e.tables
       /\ Len(e.tables[t]) >= Len(Required[t])
       /\ \A k \in DOMAIN Required[t] : e.tables[t][k] = Required[t][k]

\* path: "dir", "file" or "missing".  Entries of another extension and directories do not count.
OpenAllows(path, entries, o) ==
  LET counts == {k \in DOMAIN entries : entries[k].ext = "sqlite3" /\ entries[k].kind # "dir"} IN
  CASE o.r \in {"panic", "crash", "hang"} -> FALSE
    [] path # "dir" -> Fails(o, {"NotDirectory"})
    [] \E k \in counts : ~SchemaOk(entries[k]) -> o.r = "err"
    [] \A k \in counts : entries[k].stem = Aio /\ entries[k].ncomps = 0 -> Fails(o, {"NoSqlite3Files"})
    [] OTHER -> o.r = "ok"

(***************************************************************************)
(* What errors name.  A description is the kind of the error, and what it  *)
(* names; <<"*">> stands for any description.                              *)
(***************************************************************************)
Tells(o, faults) == <<"*">> \in faults \/ o.w \in faults

\* Component that is not there, or whose default language is amiss.
CallFaults(db, op) ==
  IF op.op \in {"iddet", "compdet", "repdet"} /\ Flaws(db) # {}
  THEN {<<Flaw(db, c), c>> : c \in {x \in Components(db) : Flaw(db, x) # ""}}
  ELSE {<<"ComponentNotFound", op.c>>}

ColumnFaults(t, r, c) ==
  LET wants(p) == <<"ColumnProperty", t, r.n, p>> IN
  IF c.n # r.n THEN {<<"MissingColumn", t, r.n>>}
  ELSE (IF c.t = r.t THEN {} ELSE {wants(r.t)})
       \union (IF c.nn = r.nn THEN {} ELSE {wants(IF r.nn THEN "NOT NULL" ELSE "NULL")})
       \union (IF c.pk = r.pk THEN {} ELSE {wants(IF r.pk THEN "PRIMARY KEY" ELSE "NOT PRIMARY KEY")})
       \union (IF c.df THEN {<<"ColumnDefault", t, r.n, "NULL">>} ELSE {})

TableFaults(e, t) ==
  IF t \notin DOMAIN e.tables THEN {<<"MissingTable", t>>}
  ELSE LET cols == e.tables[t]
           req == Required[t]
           none == {k \in DOMAIN req : \A j \in DOMAIN cols : cols[j].n # req[k].n}
       IN IF none # {} THEN {<<"MissingColumn", t, req[k].n>> : k \in none}
          ELSE UNION {ColumnFaults(t, req[k], cols[k]) : k \in DOMAIN req}

EntryFaults(e) ==
  IF e.kind # "db" THEN {<<"*">>}
  ELSE UNION {TableFaults(e, t) : t \in DOMAIN Required}
       \union (IF "metadata" \notin DOMAIN e.tables \/ e.versions = <<"1.0">> THEN {}
               ELSE IF e.versions = <<>> THEN {<<"MissingVersion", e.stem \o ".sqlite3">>}
               ELSE {<<"Version", e.stem \o ".sqlite3", "1.0">>})

OpenFaults(path, entries) ==
  LET bad == {k \in DOMAIN entries : entries[k].ext = "sqlite3" /\ entries[k].kind # "dir" /\ ~SchemaOk(entries[k])} IN
  CASE path # "dir" -> {<<"NotDirectory", "asked">>}
    [] bad # {} -> UNION {EntryFaults(entries[k]) : k \in bad}
    [] OTHER -> {<<"NoSqlite3Files", "asked">>}
=============================================================================
