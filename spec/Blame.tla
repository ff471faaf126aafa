------------------------------- MODULE Blame -------------------------------
(***************************************************************************)
(* What the error of a refused string, or of an unsuitable value, points   *)
(* at.  A description is a sequence: the kind of the fault, and the pieces *)
(* of the string that are at fault.  A string may have several faults, and *)
(* any of them may be reported, except that a string which does not even   *)
(* parse is refused where it can not be continued:                         *)
(*   InvalidToken  position of the token (in graphemes), its text, and     *)
(*                 what was being read (not promised)                      *)
(*   EndedAbruptly nothing is wrong but that the string ends here          *)
(* <<"*">> stands for any description, "?" for any piece.                  *)
(*                                                                         *)
(* places: for each character of the text, the position in graphemes of    *)
(* the token that starts there.  All descriptions are made of strings.     *)
(***************************************************************************)
EXTENDS Pattern

(***************************************************************************)
(* Strings that do not parse.                                              *)
(***************************************************************************)
\* The state before the token at which a text is refused, and the place of this token.
Stumble(toks) ==
  FoldLeft(LAMBDA a, i : IF a.at # 0 THEN a
                         ELSE LET s == PStep(a.st, toks[i]) IN
                              IF s.mode = "Err" THEN [a EXCEPT !.at = i] ELSE [a EXCEPT !.st = s],
           [st |-> PInit, at |-> 0], [i \in DOMAIN toks |-> i])

SyntaxBlame(toks, places) ==
  LET x == Stumble(toks) IN
  IF x.at = 0 THEN {<<"EndedAbruptly">>}
  ELSE LET tok == toks[x.at]
           place == places[tok.sc + 1]
           m == x.st.mode
           wrong(i) == <<"InvalidToken", "?", places[toks[i].sc + 1], toks[i].s>>
       IN CASE m = "Pat0" /\ tok.k = "I" -> {<<"UniquePattern", tok.s>>}
            [] m = "NS0" /\ tok.k = "I" -> {<<"UniqueNamed", tok.s>>}
            [] m = "Sub" /\ tok.s = "#" -> {<<"MultiNumberSign", place>>}
            \* a name that white space does not follow: the name is wrong, or what follows it
            [] m = "NS1" -> {wrong(x.at - 1), wrong(x.at)}
            [] OTHER -> {wrong(x.at)}

(***************************************************************************)
(* Strings that parse, but do not make sense.                              *)
(***************************************************************************)
PlaceholderBlame(part, known) ==
  LET o == OptMap(part.opts)
      bad(n, values) == IF o[n] \in values THEN {} ELSE {<<"InvalidOptionValue", o[n], n, part.kw>>}
      lost(n) == IF o[n] \in known THEN {} ELSE {<<"SelectorNamed", o[n], n, part.id>>}
      stray(n) == {<<"InvalidOption", n, part.kw, part.id>>}
  IN
  CASE part.kw = "" -> {}
    [] part.kw = "decimal" ->
         UNION {CASE n = "sign" -> bad(n, Signs) [] n = "group" -> bad(n, Groups) [] OTHER -> stray(n) : n \in DOMAIN o}
    [] part.kw = "date_time" ->
         UNION {CASE n \in {"date", "time"} -> bad(n, Lengths) [] n = "calendar" -> bad(n, Calendars)
                  [] OTHER -> stray(n) : n \in DOMAIN o}
    [] part.kw \in {"plural", "ordinal"} ->
         (IF "other" \in DOMAIN o THEN {} ELSE {<<"SelectorOther", part.kw, part.id>>})
         \union UNION {lost(n) : n \in DOMAIN o}
         \union {<<"InvalidSelector", n, part.kw, part.id>> : n \in DOMAIN o \ Categories}
    [] part.kw = "select" -> UNION {lost(n) : n \in DOMAIN o}
    [] OTHER -> {<<"InvalidKeyword", part.kw, part.id>>}

\* A command that was called: it is not there, or what it says.
CommandBlame(cmds, args, orc) ==
  IF args[1].v \notin DOMAIN cmds THEN {<<"NotFound", args[1].v>>}
  ELSE IF Apply(cmds[args[1].v], args, orc).ok THEN {}
  ELSE LET c == Complaint(cmds[args[1].v], args) IN {IF Len(c) = 1 THEN c ELSE <<c[1], c[2], ToString(c[3])>>}

PartBlame(part, known, cmds, orc) ==
  CASE part.p = "ph" -> PlaceholderBlame(part, known)
    [] part.p = "cmd" -> IF part.argk[1] # "id" THEN {<<"*">>}
                         ELSE IF part.delay THEN {}
                         ELSE CommandBlame(cmds, [i \in DOMAIN part.args |-> StrVal(part.args[i])], orc)
    [] OTHER -> {}

PartsBlame(parts, known, cmds, orc) == UNION {PartBlame(parts[j], known, cmds, orc) : j \in DOMAIN parts}

SenseBlame(st, cmds, orc) ==
  UNION {(IF st.named[i].id = "_" THEN {<<"NamedStringIdentifier", "_">>} ELSE {})
         \union PartsBlame(st.named[i].parts, NamedIds(st, i - 1), cmds, orc) : i \in DOMAIN st.named}
  \union PartsBlame(st.main, NamedIds(st, Len(st.named)), cmds, orc)

\* The faults of a text that is not accepted.
TextBlame(chars, places, cmds, orc) ==
  LET toks == Lex(chars, GrammarChars)
      st == Parse(toks)
  IN IF PEnd(st) THEN SenseBlame(st, cmds, orc) ELSE SyntaxBlame(toks, places)

(***************************************************************************)
(* Values: of the placeholders in the main string, and in the strings that *)
(* the values select.  "?" is the name of a part, which is not promised.   *)
(***************************************************************************)
Suits(kw, v) ==
  CASE kw = "" -> v.k \in TextKinds
    [] kw \in {"decimal", "plural"} -> v.k \in NumberKinds
    [] kw = "ordinal" -> v.k = "uns"
    [] kw = "select" -> v.k \in TextKinds
    [] kw = "date_time" -> v.k \in {"str", "dt", "date", "time"}

Title(kw) == CASE kw = "" -> "PatternString" [] kw = "decimal" -> "PatternDecimal" [] kw = "plural" -> "PatternPlural"
               [] kw = "ordinal" -> "PatternOrdinal" [] kw = "select" -> "PatternSelect" [] OTHER -> "PatternDateTime"

RECURSIVE ValuesBlame(_, _, _, _, _, _)
ValueBlame(pat, part, vals, lang, cmds, orc) ==
  CASE part.p = "cmd" /\ part.delay ->
         CommandBlame(cmds, [i \in DOMAIN part.args |->
                              IF i > 1 /\ part.args[i] \in DOMAIN vals THEN vals[part.args[i]] ELSE StrVal(part.args[i])], orc)
    [] part.p = "ph" ->
         IF part.id \notin DOMAIN vals THEN {<<"PlaceholderValue", "?", part.id>>} ELSE
         LET v == vals[part.id] IN
         IF ~Suits(part.kw, v) THEN {<<"InvalidValue", Title(part.kw)>>}
         ELSE CASE part.kw \in {"plural", "ordinal"} ->
                     LET cat == Orc(orc, (IF part.kw = "plural" THEN "card|" ELSE "ord|") \o lang \o "|" \o v.k \o "|" \o v.v)
                     IN IF cat = "!" THEN {<<"*">>}
                        ELSE ValuesBlame(pat, FindNamed(pat, Chosen(part.opts, cat)), vals, lang, cmds, orc)
                [] part.kw = "select" ->
                     LET n == Chosen(part.opts, v.v) IN
                     IF n = "" THEN {<<"SelectorsIndexNamed", v.v, "?">>} ELSE ValuesBlame(pat, FindNamed(pat, n), vals, lang, cmds, orc)
                \* a number or a date that ICU4X refuses
                [] part.kw \in {"decimal", "date_time"} ->
                     IF RenderPart(pat, part, "", vals, lang, cmds, orc).st = "ok" THEN {} ELSE {<<"*">>}
                [] OTHER -> {}
    [] OTHER -> {}

ValuesBlame(pat, parts, vals, lang, cmds, orc) ==
  UNION {ValueBlame(pat, parts[j], vals, lang, cmds, orc) : j \in DOMAIN parts}

\* The faults of a request for a text.
Faults(chars, places, vals, lang, cmds, orc) ==
  LET pat == Compile(chars, cmds, orc) IN
  IF ~pat.ok THEN TextBlame(chars, places, cmds, orc)
  ELSE IF pat.raw THEN {} ELSE ValuesBlame(pat, pat.main, vals, lang, cmds, orc)

\* d: what an error says, f: a fault.
Says(d, f) ==
  \/ f = <<"*">>
  \/ /\ Len(d) = Len(f)
     /\ \A i \in DOMAIN f : f[i] \in {"?", "*"} \/ d[i] = f[i]
=============================================================================
