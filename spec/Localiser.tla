----------------------------- MODULE Localiser -----------------------------
(***************************************************************************)
(* A localiser: its defaults, its cache, and the calls on it, on top of a  *)
(* provider of localisation strings (whose contents may change) and a      *)
(* registry of commands.                                                   *)
(*                                                                         *)
(* State:                                                                  *)
(*   lang, fb, ca  default language, fallback and caching                  *)
(*   cache         <<language, component, identifier, literal, fallback>>  *)
(*                 -> [str, tag]                                           *)
(*   rows          <<component, identifier, language>> -> index of a text  *)
(*   def           component -> default language                          *)
(*   bad           <<kind, component, language>> -> the error with which  *)
(*                 the provider fails at present, where it is asked for a  *)
(*                 string of this language, or for details                 *)
(*   cmds          command -> function                                    *)
(*   scr           script -> data of the script, as far as it is known     *)
(* Env (constant of a scenario):                                           *)
(*   strs   the texts, each a sequence of characters (see Lexer)           *)
(*   chain  language -> the languages to try, from the language itself to  *)
(*          its shortest parent                                            *)
(*   orc    facts of ICU4X                                                 *)
(*   why    whether errors have to say what is at fault, and places, for the *)
(*          texts, as in Blame                                             *)
(*   fixed  the provider is the SQLite one, whose contents do not change;   *)
(*          then for a language any that extends it will do as well         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Blame, Scripts, Plain

LInit(lang, fb, ca, rows, def, cmds) ==
  [lang |-> lang, fb |-> fb, ca |-> ca, cache |-> <<>>, rows |-> rows, def |-> def,
   cmds |-> cmds, scr |-> <<>>, bad |-> <<>>]

LOk(s, t) == [st |-> "ok", s |-> s, t |-> t]
LErr(e) == [st |-> "err", e |-> e, s |-> "", t |-> ""]
LAny == [st |-> "any", e |-> "", s |-> "", t |-> ""]

\* The provider: the text for the language, or else for its nearest parent.
Fails(st, kind, c, t) == <<kind, c, t>> \in DOMAIN st.bad
Failure(st, kind, c, t) == [r |-> "err", e |-> <<"Provider", st.bad[<<kind, c, t>>], c>>]
Lookup(env, st, c, i, t) ==
  LET ch == env.chain[t]
      hits == {n \in DOMAIN ch : <<c, i, ch[n]>> \in DOMAIN st.rows}
  IN IF Fails(st, "string", c, t) THEN Failure(st, "string", c, t)
     ELSE IF hits = {} THEN [r |-> "none"]
     ELSE LET n == CHOOSE n \in hits : \A m \in hits : n <= m
          IN [r |-> "found", str |-> st.rows[<<c, i, ch[n]>>], tag |-> ch[n]]

\* The SQLite provider: the nearest level with a text, there the very language if it has one.
\* Otherwise the text is one of several, unless there is but one.
Extending(env, st, c, i, p) ==
  {k \in DOMAIN st.rows : k[1] = c /\ k[2] = i /\ \E n \in DOMAIN env.chain[k[3]] : env.chain[k[3]][n] = p}
LookupSql(env, st, c, i, t) ==
  LET ch == env.chain[t]
      hits == {n \in DOMAIN ch : Extending(env, st, c, i, ch[n]) # {}}
  IN IF hits = {} THEN [r |-> "none"]
     ELSE LET n == CHOOSE n \in hits : \A m \in hits : n <= m
              e == Extending(env, st, c, i, ch[n])
              k == IF <<c, i, ch[n]>> \in e THEN <<c, i, ch[n]>> ELSE CHOOSE k \in e : TRUE
          IN IF <<c, i, ch[n]>> \notin e /\ Cardinality(e) > 1 THEN [r |-> "several", of |-> e]
             ELSE [r |-> "found", str |-> st.rows[k], tag |-> k[3]]

\* The text for a request: in the language, otherwise, if falling back is allowed, in the
\* default language of the component.  If the provider fails on the way, so does the request.
Resolve(env, st, c, i, t, fb) ==
  IF c \notin DOMAIN st.def THEN [r |-> "err", e |-> <<"Provider", "ComponentNotFound", c>>]
  ELSE LET look(l) == IF env.fixed THEN LookupSql(env, st, c, i, l) ELSE Lookup(env, st, c, i, l)
           x == look(t) IN
       IF x.r # "none" THEN x
       ELSE IF ~fb THEN [r |-> "err", e |-> <<"StringNotFound", c, i, t, FALSE>>]
       ELSE IF Fails(st, "details", c, "") THEN Failure(st, "details", c, "")
       ELSE LET y == look(st.def[c]) IN
            IF y.r # "none" THEN y ELSE [r |-> "err", e |-> <<"StringNotFound", c, i, t, TRUE>>]

\* Result of a request for the text it resolved to.
Answer(env, st, x, vals, lit) ==
  IF lit THEN LOk(TextOf(env.strs[x.str]), x.tag)
  ELSE LET r == Render(Compile(env.strs[x.str], st.cmds, env.orc), vals, x.tag, st.cmds, env.orc)
       IN IF r.st = "ok" THEN LOk(r.s, x.tag)
          ELSE IF r.st = "any" THEN LAny
          ELSE IF ~env.why THEN LErr(<<"Formatter">>)
          ELSE LErr(<<"Formatter", Faults(env.strs[x.str], env.places[x.str], vals, x.tag, st.cmds, env.orc)>>)

\* One request.  What was stored by an earlier request of the same kind is used again; only
\* requests with caching in force store, and only texts that are accepted are stored.
Request(env, st, c, i, vals, t, fb, ca, lit) ==
  LET key == <<t, c, i, lit, fb>> IN
  IF key \in DOMAIN st.cache
  THEN [st |-> st, res |-> Answer(env, st, st.cache[key], vals, lit)]
  ELSE LET x == Resolve(env, st, c, i, t, fb) IN
       IF x.r = "err" THEN [st |-> st, res |-> LErr(x.e)]
       ELSE IF x.r = "several"
       THEN [st |-> st,
             res |-> [st |-> "several", s |-> "", t |-> "",
                      of |-> {Answer(env, st, [str |-> st.rows[k], tag |-> k[3]], vals, lit) : k \in x.of}]]
       ELSE LET good == lit \/ Compile(env.strs[x.str], st.cmds, env.orc).ok IN
            [st |-> IF ca /\ good /\ ~env.fixed   \* what does not change need not be remembered
                    THEN [st EXCEPT !.cache = (key :> [str |-> x.str, tag |-> x.tag]) @@ @]
                    ELSE st,
             res |-> Answer(env, st, x, vals, lit)]

\* Localisation data: nested data is localised first, for the same language and in the same way.
RECURSIVE DataRequest(_, _, _, _, _, _)
DataRequest(env, st, d, t, fb, ca) ==
  IF ~d.hasv THEN Request(env, st, d.c, d.i, <<>>, t, fb, ca, TRUE)
  ELSE LET names == SetToSeq(DOMAIN d.vals)
           step(acc, n) ==
             IF d.vals[n].k # "ld" THEN [acc EXCEPT !.vals = (n :> d.vals[n]) @@ @]
             ELSE LET x == DataRequest(env, acc.st, d.vals[n], t, fb, ca) IN
                  [st |-> x.st,
                   vals |-> (n :> [k |-> "loc", v |-> x.res.s]) @@ acc.vals,
                   bad |-> IF x.res.st = "ok" THEN acc.bad
                           ELSE acc.bad \union (IF x.res.st = "oneof" THEN x.res.of ELSE {x.res})]
           inner == FoldLeft(step, [st |-> st, vals |-> <<>>, bad |-> {}], names)
       IN IF inner.bad # {}
          THEN IF \E b \in inner.bad : b.st \in {"any", "several"} THEN [st |-> inner.st, res |-> LAny] ELSE
               \* the values are localised in no particular order, thus any of the failures may be reported
               [st |-> inner.st, res |-> [st |-> "oneof", s |-> "", t |-> "", of |-> inner.bad]]
          ELSE Request(env, inner.st, d.c, d.i, inner.vals, t, fb, ca, FALSE)

\* "t", "f": as given; "n": the default
Choice(x, default) == IF x = "n" THEN default ELSE x = "t"

Nothing(st, r) == [st |-> st, res |-> r]
Done == [st |-> "done"]

\* One step of a history.
LStep(env, st, op) ==
  LET fb == IF "fb" \in DOMAIN op THEN Choice(op.fb, st.fb) ELSE st.fb
      ca == IF "ca" \in DOMAIN op THEN Choice(op.ca, st.ca) ELSE st.ca
  IN
  CASE op.op = "format" -> Request(env, st, op.c, op.i, op.v, op.t, fb, ca, FALSE)
    [] op.op = "formatd" -> Request(env, st, op.c, op.i, op.v, st.lang, st.fb, st.ca, FALSE)
    [] op.op = "literal" -> Request(env, st, op.c, op.i, <<>>, op.t, fb, ca, TRUE)
    [] op.op = "literald" -> Request(env, st, op.c, op.i, <<>>, st.lang, st.fb, st.ca, TRUE)
    [] op.op \in {"data", "err"} -> DataRequest(env, st, op.d, op.t, fb, ca)
    [] op.op \in {"datad", "errd"} -> DataRequest(env, st, op.d, st.lang, st.fb, st.ca)
    [] op.op = "e" -> DataRequest(env, st, ErrorData(op.e), op.t, fb, ca)
    [] op.op = "ed" -> DataRequest(env, st, ErrorData(op.e), st.lang, st.fb, st.ca)
    [] op.op = "seen" -> Nothing(st, LAny)   \* only that it does not panic
    [] op.op = "defaults" ->
         Nothing([st EXCEPT !.lang = IF op.t = "" THEN @ ELSE op.t, !.fb = fb, !.ca = ca], Done)
    [] op.op = "make" ->   \* a new localiser, with this default language if it is one
         LET c == env.orc["canon|" \o op.t] IN
         Nothing(st, IF c = "!" THEN [st |-> "cerr", e |-> "Registry"] ELSE [st |-> "lang", t |-> c])
    [] op.op = "deflang" -> Nothing(st, [st |-> "lang", t |-> st.lang])
    [] op.op = "script" -> Nothing(st, [st |-> "script", t |-> st.lang])
    [] op.op = "scriptfor" -> Nothing(st, [st |-> "script", t |-> op.t])
    [] op.op = "put" ->
         LET key == <<op.c, op.i, op.t>> IN
         Nothing([st EXCEPT !.rows = IF op.s = 0 THEN [k \in DOMAIN @ \ {key} |-> @[k]]
                                     ELSE (key :> op.s) @@ @], Done)
    [] op.op = "putdef" -> Nothing([st EXCEPT !.def = (op.c :> op.t) @@ @], Done)
    [] op.op = "fail" ->
         LET key == <<op.n, op.c, IF "t" \in DOMAIN op THEN op.t ELSE "">> IN
         Nothing([st EXCEPT !.bad = IF op.f = "" THEN [k \in DOMAIN @ \ {key} |-> @[k]]
                                    ELSE (key :> op.f) @@ @], Done)
    [] op.op = "cmdinsert" ->
         IF op.n \in DOMAIN st.cmds THEN Nothing(st, [st |-> "cerr", e |-> "AlreadyExists"])
         ELSE Nothing([st EXCEPT !.cmds = (op.n :> op.f) @@ @], Done)
    [] op.op = "cmdget" ->
         Nothing(st, IF op.n \in DOMAIN st.cmds THEN Done ELSE [st |-> "cerr", e |-> "NotFound"])
    [] op.op = "cmdlist" -> Nothing(st, [st |-> "list", l |-> DOMAIN st.cmds])
    [] op.op = "cmdcall" ->
         Nothing(st, IF op.n \notin DOMAIN st.cmds THEN [st |-> "cerr", e |-> "NotFound"]
                     ELSE LET r == Apply(st.cmds[op.n], op.a, env.orc) IN
                          IF r.ok THEN [st |-> "text", s |-> r.s] ELSE [st |-> "complaint", e |-> Complaint(st.cmds[op.n], op.a)])

(***************************************************************************)
(* Whether an observation is allowed.  o: what the code answered.          *)
(***************************************************************************)
ErrMatch(env, e, o) ==
  /\ o.e = e[1]
  /\ (e[1] = "Formatter" /\ env.why) => \E f \in e[2] : Says(o.w, f)
  /\ (e[1] = "Provider" /\ e[2] = "ComponentNotFound" /\ env.why) => Says(o.w, <<e[2], e[3]>>)
  /\ e[1] = "StringNotFound" => <<o.c, o.i, o.t, o.fb>> = <<e[2], e[3], e[4], e[5]>>
  /\ e[1] = "Provider" => o.p = e[2]

ToSetOf(s) == {s[i] : i \in DOMAIN s}

\* Direction of the lines and of the text, of a named direction.
ScriptConsistent(o) ==
  \A i \in DOMAIN o.dirs : o.dirs[i] = o.pair[i] /\ o.pair[i] = o.line[i] \o o.graph[i]

\* Data of a script.  The script of a language is its own, or the likely one; if there is none,
\* there is no data.  The same script always has the same data, which has at least one
\* direction, and agrees with CLDR on whether text can run from right to left.
ScriptMatch(env, st, t, o) ==
  LET code == Orc(env.orc, "script|" \o t)
      dir == Orc(env.orc, "dir|" \o t)
  IN /\ o.r = "ok"
     /\ code = "" => ~o.some
     /\ code \in Known => o.some /\ <<o.cat, o.hist, o.dirs>> = ScriptData[code]
     /\ (o.some /\ code \in DOMAIN st.scr) => st.scr[code] = <<o.cat, o.hist, o.dirs>>
     /\ (~o.some /\ code \in DOMAIN st.scr) => st.scr[code] = <<>>
     /\ o.some =>
          /\ o.dirs # <<>> /\ ScriptConsistent(o)
          /\ (dir = "rtl" /\ t \in env.living) => \E i \in DOMAIN o.graph : o.graph[i] = "RightToLeft"
          /\ (dir = "ltr" /\ t \in env.living) =>
               \E i \in DOMAIN o.graph : o.dirs[i] = "TopToBottomLeftToRight" \/ o.graph[i] = "TopToBottom"
     /\ (t \in env.living /\ code # "") => o.some

\* What is learnt of the data of the scripts from an observation.
Learn(env, st, res, o) ==
  IF res.st # "script" THEN st
  ELSE LET code == Orc(env.orc, "script|" \o res.t) IN
       [st EXCEPT !.scr = (code :> (IF o.some THEN <<o.cat, o.hist, o.dirs>> ELSE <<>>)) @@ @]

RECURSIVE LMatch(_, _, _, _)
LMatch(env, st, res, o) ==
  CASE o.r \in {"panic", "crash", "hang"} -> FALSE
    [] res.st = "ok" -> o.r = "ok" /\ o.s = res.s /\ o.t = res.t
    [] res.st = "err" -> o.r = "err" /\ ErrMatch(env, res.e, o)
    [] res.st = "oneof" -> o.r = "err" /\ \E b \in res.of : ErrMatch(env, b.e, o)
    [] res.st = "several" -> \E x \in res.of : LMatch(env, st, x, o)
    [] res.st = "any" -> TRUE
    [] res.st = "done" -> o.r = "ok"
    [] res.st = "lang" -> o.r = "ok" /\ o.t = res.t
    [] res.st = "text" -> o.r = "ok" /\ o.s = res.s
    [] res.st = "cerr" -> o.r = "err" /\ (res.e = "*" \/ o.e = res.e)
    [] res.st = "complaint" ->
         /\ o.r = "err"
         /\ res.e[1] # "*" => o.e = res.e[1] /\ o.k = res.e[3] /\ (res.e[2] = "*" \/ o.c = res.e[2])
    [] res.st = "list" -> o.r = "ok" /\ ToSetOf(o.l) = res.l /\ Len(o.l) = Cardinality(res.l)
    [] res.st = "script" -> ScriptMatch(env, st, res.t, o)
=============================================================================
