------------------------------- MODULE MCLoc -------------------------------
(***************************************************************************)
(* All histories of calls on a localiser in a small world: one component,  *)
(* three languages and their parents, texts of every sort, changes of the  *)
(* provider between the calls.  Every distinct state of the localiser is   *)
(* visited once (VIEW), and from it every call is made; each such history  *)
(* is printed for replay on the implementation.                            *)
(***************************************************************************)
EXTENDS Localiser, Json
CONSTANTS MaxSteps, Wide

Ch(c, w) == [c |-> c, w |-> w, b |-> 1]
Strs == << <<Ch("A", "I")>>,                                                          \* A
           <<Ch("P", "I"), Ch("{", "S"), Ch("a", "I"), Ch("}", "S")>>,                \* P{a}
           <<Ch("{", "S")>>,                                                          \* refused
           <<Ch("B", "I"), Ch("`", "S"), Ch("{", "S")>>,                              \* B`{
           <<Ch("{", "S"), Ch("#", "S"), Ch("k", "I"), Ch("}", "S")>> >>              \* {#k}
Texts == <<"A", "P{a}", "{", "B`{", "{#k}">>
Env == [strs |-> Strs, why |-> FALSE, places |-> <<>>, orc |-> <<>>, living |-> {}, fixed |-> FALSE,
        chain |-> [x \in {"en-ZA", "en", "fr", "de", "de-AT"} |->
                     CASE x = "en-ZA" -> <<"en-ZA", "en">> [] x = "de-AT" -> <<"de-AT", "de">> [] OTHER -> <<x>>]]
Rows == << <<"c", "i", "en", 2>>, <<"c", "i", "de", 1>>, <<"c", "j", "de", 3>>, <<"c", "k", "fr", 4>>, <<"c", "k", "de", 5>> >>
RowMap == FoldLeft(LAMBDA f, r : (<<r[1], r[2], r[3]>> :> r[4]) @@ f, <<>>, Rows)
Vals == [a |-> [k |-> "str", v |-> "v", ch |-> <<"v">>]]

VARIABLES st, hist, clean
vars == <<st, hist, clean>>

Bools == {"t", "f"}
Tri == IF Wide THEN {"t", "f", "n"} ELSE Bools
Requests ==
  {[op |-> "format", c |-> "c", i |-> i, v |-> Vals, t |-> t, fb |-> f, ca |-> a] :
      i \in (IF Wide THEN {"i", "j", "k"} ELSE {"i", "k"}), t \in {"en-ZA", "fr"}, f \in Tri, a \in Tri}
  \union {[op |-> "literal", c |-> "c", i |-> i, t |-> t, fb |-> f, ca |-> a] :
      i \in {"i"}, t \in {"en-ZA", "fr"}, f \in Tri, a \in Tri}
  \union {[op |-> "formatd", c |-> "c", i |-> "i", v |-> Vals], [op |-> "literald", c |-> "c", i |-> "i"],
          [op |-> "format", c |-> "x", i |-> "i", v |-> Vals, t |-> "en-ZA", fb |-> "t", ca |-> "t"],
          [op |-> "format", c |-> "c", i |-> "i", v |-> Vals, t |-> "en-ZA", fb |-> "n", ca |-> "n"]}
Sets == {[op |-> "defaults", t |-> "fr", fb |-> "n", ca |-> "n"], [op |-> "defaults", t |-> "", fb |-> "t", ca |-> "n"],
         [op |-> "defaults", t |-> "", fb |-> "f", ca |-> "n"], [op |-> "defaults", t |-> "", fb |-> "n", ca |-> "t"],
         [op |-> "defaults", t |-> "", fb |-> "n", ca |-> "f"], [op |-> "defaults", t |-> "en-ZA", fb |-> "t", ca |-> "f"],
         [op |-> "deflang"]}
Puts == {[op |-> "put", c |-> "c", i |-> "i", t |-> "en-ZA", s |-> 1], [op |-> "put", c |-> "c", i |-> "i", t |-> "en", s |-> 0],
         [op |-> "put", c |-> "c", i |-> "i", t |-> "de", s |-> 4], [op |-> "put", c |-> "c", i |-> "i", t |-> "en", s |-> 3],
         [op |-> "fail", n |-> "string", c |-> "c", t |-> "en-ZA", f |-> "Custom"],
         [op |-> "fail", n |-> "string", c |-> "c", t |-> "en-ZA", f |-> ""],
         [op |-> "fail", n |-> "details", c |-> "c", f |-> "Custom"],
         [op |-> "putdef", c |-> "c", t |-> "fr"], [op |-> "cmdinsert", n |-> "k", f |-> "echo"]}
Ops == Requests \union Sets \union Puts
IsRequest(op) == op.op \in {"format", "literal", "formatd", "literald"}

\* Histories are printed in the notation of the scenarios.
BoolOf(x) == x = "t"
Emit(h) == PrintT("GEN " \o ToJson(h))

Init == /\ st \in {LInit("en-ZA", f, c, RowMap, [c |-> "de"], <<>>) : f \in BOOLEAN, c \in BOOLEAN}
        /\ hist = <<[fb |-> st.fb, ca |-> st.ca]>> /\ clean = TRUE
Next == /\ Len(hist) <= MaxSteps
        /\ \E op \in Ops :
             LET r == LStep(Env, st, op) IN
             /\ st' = r.st
             /\ hist' = Append(hist, op)
             /\ clean' = (clean /\ op \notin Puts)
             /\ Emit(hist')
Spec == Init /\ [][Next]_vars
View == <<st, clean, Len(hist)>>

-----------------------------------------------------------------------------
(* Properties of every call: op is the call, res its result.               *)
Op == Last(hist')
Res == LStep(Env, st, Op).res
Asked == IF "t" \in DOMAIN Op THEN Op.t ELSE st.lang
Falls == IF "fb" \in DOMAIN Op THEN Choice(Op.fb, st.fb) ELSE st.fb
Caches == IF "ca" \in DOMAIN Op THEN Choice(Op.ca, st.ca) ELSE st.ca

\* Without changes of the provider, a request is answered as if there were no cache.
Transparent == [][(clean /\ IsRequest(Op)) => LStep(Env, [st EXCEPT !.cache = <<>>], Op).res = Res]_vars
\* Calls without caching in force leave the cache as it is; what was stored stays.
CachingPolicy ==
  [][/\ (~IsRequest(Op) \/ ~Caches) => st'.cache = st.cache
     /\ \A k \in DOMAIN st.cache : k \in DOMAIN st'.cache /\ st'.cache[k] = st.cache[k]
     /\ Cardinality(DOMAIN st'.cache \ DOMAIN st.cache) <= 1]_vars
\* A request changes nothing but the cache.
RequestsOnlyCache == [][IsRequest(Op) => [st' EXCEPT !.cache = <<>>] = [st EXCEPT !.cache = <<>>]]_vars
\* The language of an answer: without fallback the asked language or a parent of it, otherwise
\* possibly the default language of the component.
InChain(x, t) == \E n \in DOMAIN Env.chain[t] : Env.chain[t][n] = x
AnswerLanguage ==
  [][(clean /\ IsRequest(Op) /\ Res.st = "ok") => InChain(Res.t, Asked) \/ (Falls /\ InChain(Res.t, st.def[Op.c]))]_vars
\* Falling back never hides a text that exists for the language.
FallbackOnlyIfMissing ==
  [][(clean /\ IsRequest(Op) /\ Op.c = "c") =>
       LET x == Lookup(Env, st, Op.c, Op.i, Asked) IN (x.r = "found" /\ Res.st = "ok") => Res.t = x.tag]_vars
\* A provider that fails is not taken for one that has no text; and nothing is stored then.
FailuresShow ==
  [][(IsRequest(Op) /\ Op.c = "c" /\ Fails(st, "string", "c", Asked)) =>
       \/ \E k \in DOMAIN st.cache : k[1] = Asked /\ k[3] = Op.i
       \/ Res.st = "err" /\ Res.e[1] = "Provider" /\ st'.cache = st.cache]_vars
\* Defaults are those that were last given.
DefaultsAsGiven ==
  [][/\ Op.op = "defaults" => /\ st'.lang = (IF Op.t = "" THEN st.lang ELSE Op.t)
                              /\ st'.fb = Choice(Op.fb, st.fb) /\ st'.ca = Choice(Op.ca, st.ca)
     /\ Op.op # "defaults" => <<st'.lang, st'.fb, st'.ca>> = <<st.lang, st.fb, st.ca>>]_vars
=============================================================================
