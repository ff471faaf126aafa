------------------------------- MODULE MCProv -------------------------------
(***************************************************************************)
(* All small repositories: a component in the file with everything, in a   *)
(* file of its own, or in both, with strings in any of a few languages,    *)
(* and contributors for any of these.  Checks the relations between the    *)
(* calls for every repository, and prints the repositories for replay.     *)
(***************************************************************************)
EXTENDS Provider, Json
CONSTANT Langs, Asked, Focus    \* Focus: "strings" or "details"

Sub(t) == CASE t = "en" -> <<"en">> [] t = "en-ZA" -> <<"en", "za">> [] t = "en-ZA-boont" -> <<"en", "za", "boont">>
            [] t = "enm" -> <<"enm">> [] t = "de" -> <<"de">> [] t = "en-GB" -> <<"en", "gb">>
            [] t = "en-Latn-ZA" -> <<"en", "latn", "za">> [] t = "en-Latn" -> <<"en", "latn">>

VARIABLES db, done
vars == <<db, done>>

FileSets == {{Aio}, {"c"}, {Aio, "c"}}
Row(f, t) == [f |-> f, c |-> "c", i |-> "i", t |-> t, s |-> f \o "/" \o t]
Contrib(f, t) == [f |-> f, c |-> "c", t |-> t, w |-> "w" \o t]
Repo(files, a, b, ca, cb, d, inAio) ==
  [files |-> files, sub |-> [t \in Langs \union Asked |-> Sub(t)],
   comps |-> (IF inAio /\ Aio \in files THEN {[f |-> Aio, c |-> "c", d |-> d]} ELSE {})
             \union (IF "c" \in files THEN {[f |-> "c", c |-> "c", d |-> d]} ELSE {})
             \union (IF ~inAio /\ Aio \in files THEN {[f |-> Aio, c |-> "other", d |-> d]} ELSE {}),
   contribs |-> {Contrib(Aio, t) : t \in IF Aio \in files THEN ca ELSE {}}
                \union {Contrib("c", t) : t \in IF "c" \in files THEN cb ELSE {}}
                \union (IF ~inAio /\ Aio \in files THEN {[f |-> Aio, c |-> "other", t |-> d, w |-> "w"]} ELSE {}),
   rows |-> {Row(Aio, t) : t \in IF Aio \in files THEN a ELSE {}}
            \union {Row("c", t) : t \in IF "c" \in files THEN b ELSE {}}]

Repos ==
  IF Focus = "strings"
  THEN {Repo(f, a, b, {"en"}, {"en"}, "en", x) :
          f \in FileSets, a \in SUBSET Langs, b \in {{}} \union {{t} : t \in Langs} \union {Langs}, x \in BOOLEAN}
  ELSE {Repo(f, a, b, ca, cb, d, x) : f \in FileSets, a \in {{}, {"en"}, Langs}, b \in {{}, {"en"}, Langs},
          ca \in SUBSET Langs, cb \in {{}, {"en"}, Langs}, d \in {"en", "de"}, x \in BOOLEAN}

Init == db \in Repos /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ db' = db /\ PrintT("GEN " \o ToJson(db))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ids == {"i", "none"}
\* The answer to a call for one string is among the answers to the call for all strings.
OneOfAll == \A t \in Asked, i \in Ids : Best(db, t, Find(db, "c", i, t)) \subseteq Find(db, "c", i, t).set
\* There is a best string if and only if there is any.
BestIfAny == \A t \in Asked, i \in Ids : Best(db, t, Find(db, "c", i, t)) = {} <=> Find(db, "c", i, t).set = {}
\* A string of the very language is the answer, if its file is the first that has anything.
ExactFirst == \A t \in Asked, i \in Ids :
  LET e == Exact(db, "c", i, t)
      f == Find(db, "c", i, t)
  IN e # {} => f.set # {} /\ ((\E x \in e, y \in f.set : x.f = y.f) => Best(db, t, f) = e)
\* Every string found shares the primary language with the asked language.
SameLanguage == \A t \in Asked, i \in Ids : \A x \in Find(db, "c", i, t).set : Head(db.sub[x.t]) = Head(db.sub[t])
\* What the details list can be found, and what can be found exactly is listed.
DetailsMatchStrings == \A t \in Langs : t \in IdLanguages(db, "c", "i") <=> Exact(db, "c", "i", t) # {}
\* The counts of the languages add up, also over the components.
CountsAddUp ==
  /\ Total(db, "c") = FoldSet(LAMBDA t, a : a + Count(db, "c", t), 0, Languages(db, "c"))
  /\ RTotal(db) = FoldSet(LAMBDA t, a : a + RCount(db, t), 0, RLanguages(db))
\* A component is unknown if and only if it is in no file.
KnownIffListed == \A c \in {"c", "other", "zz"} : Known(db, c) <=> c \in Components(db)
=============================================================================
