------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* The pattern language of localisation strings: a parser, which reads one *)
(* token at a time, the checks on a parsed pattern, and the rendering of a *)
(* pattern with placeholder values.                                        *)
(*                                                                         *)
(* Tokens are those of Lexer for the grammar characters { } ` #            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Lexer, IsoTime

GrammarChars == {"{", "}", "`", "#"}

(***************************************************************************)
(* Parser.  mode:                                                          *)
(*  Str   main string                 Sub    inside a named string         *)
(*  Esc   after ` in a string         Pat0   after { in a string           *)
(*  Pat   after the placeholder       Key    after the keyword             *)
(*  KeyHash, KeyVal  inside name#value                                     *)
(*  Lit, LitBt    {`literal text`}    Cmd    {#command parameters}         *)
(*  CmdLit, CmdLitBt  `literal` parameter of a command                     *)
(*  Grp   after the # that ends the main string: group of named strings    *)
(*  NS0, NS1, NS2  start of a named string {name text}                     *)
(*  Err   refused                                                          *)
(***************************************************************************)
PInit == [mode |-> "Str", sub |-> FALSE, parts |-> <<>>, main |-> <<>>, named |-> <<>>,
          nid |-> "", ids |-> {}, pid |-> "", kw |-> "", opts |-> <<>>, opt |-> "",
          args |-> <<>>, argk |-> <<>>, delay |-> FALSE, lit |-> ""]

PErr(st) == [st EXCEPT !.mode = "Err"]
Body(st) == IF st.sub THEN "Sub" ELSE "Str"

\* Text joins the text before it.
AddText(parts, t) ==
  IF parts # <<>> /\ Last(parts).p = "text"
  THEN [parts EXCEPT ![Len(parts)] = [p |-> "text", s |-> @.s \o t]]
  ELSE Append(parts, [p |-> "text", s |-> t])

EndPlaceholder(st) ==
  [st EXCEPT !.mode = Body(st),
             !.parts = Append(@, [p |-> "ph", id |-> st.pid, kw |-> st.kw, opts |-> st.opts])]

EndCommand(st) ==
  IF st.args = <<>> THEN PErr(st)
  ELSE [st EXCEPT !.mode = Body(st),
                  !.parts = Append(@, [p |-> "cmd", args |-> st.args, argk |-> st.argk,
                                       delay |-> st.delay])]

StrStep(st, tok) ==
  LET g == IF tok.k = "G" THEN tok.s ELSE "" IN
  CASE g = "`" -> [st EXCEPT !.mode = "Esc"]
    [] g = "{" -> [st EXCEPT !.mode = "Pat0"]
    [] g = "#" /\ st.sub ->
         IF st.parts # <<>> /\ Last(st.parts).p = "num" THEN PErr(st)
         ELSE [st EXCEPT !.parts = Append(@, [p |-> "num"])]
    [] g = "#" /\ ~st.sub -> [st EXCEPT !.mode = "Grp", !.main = st.parts, !.parts = <<>>,
                                        !.sub = TRUE]
    [] g = "}" /\ st.sub -> [st EXCEPT !.mode = "Grp", !.parts = <<>>,
                                       !.named = Append(@, [id |-> st.nid, parts |-> st.parts])]
    [] g = "}" /\ ~st.sub -> PErr(st)
    [] OTHER -> [st EXCEPT !.parts = AddText(@, tok.s)]

CmdStep(st, tok) ==
  LET g == IF tok.k = "G" THEN tok.s ELSE "" IN
  CASE tok.k = "W" -> st
    [] tok.k = "I" -> [st EXCEPT !.args = Append(@, tok.s), !.argk = Append(@, "id"), !.mode = "Cmd"]
    [] g = "}" -> EndCommand(st)
    [] g = "`" -> [st EXCEPT !.mode = "CmdLit", !.lit = ""]
    [] g = "#" -> IF Len(st.args) = 1 /\ ~st.delay THEN [st EXCEPT !.delay = TRUE] ELSE PErr(st)
    [] OTHER -> PErr(st)

PStep(st, tok) ==
  LET g == IF tok.k = "G" THEN tok.s ELSE ""
      m == st.mode
  IN
  CASE m = "Err" -> st
    [] m \in {"Str", "Sub"} -> StrStep(st, tok)
    [] m = "Esc" -> [st EXCEPT !.mode = Body(st), !.parts = AddText(@, tok.s)]
    [] m = "Pat0" ->
         IF tok.k = "I" THEN
           IF tok.s \in st.ids THEN PErr(st)         \* placeholders are unique
           ELSE [st EXCEPT !.mode = "Pat", !.pid = tok.s, !.ids = @ \union {tok.s},
                           !.kw = "", !.opts = <<>>]
         ELSE IF g = "`" THEN [st EXCEPT !.mode = "Lit", !.lit = ""]
         ELSE IF g = "#" THEN [st EXCEPT !.mode = "Cmd", !.args = <<>>, !.argk = <<>>, !.delay = FALSE]
         ELSE PErr(st)
    [] m = "Pat" ->
         IF tok.k = "W" THEN st
         ELSE IF tok.k = "I" THEN [st EXCEPT !.mode = "Key", !.kw = tok.s]
         ELSE IF g = "}" THEN EndPlaceholder(st) ELSE PErr(st)
    [] m = "Key" ->
         IF tok.k = "W" THEN st
         ELSE IF tok.k = "I" THEN [st EXCEPT !.mode = "KeyHash", !.opt = tok.s]
         ELSE IF g = "}" THEN EndPlaceholder(st) ELSE PErr(st)
    [] m = "KeyHash" -> IF g = "#" THEN [st EXCEPT !.mode = "KeyVal"] ELSE PErr(st)
    [] m = "KeyVal" ->
         IF tok.k = "I" THEN [st EXCEPT !.mode = "Key", !.opts = Append(@, <<st.opt, tok.s>>)]
         ELSE PErr(st)
    [] m = "Lit" -> IF g = "`" THEN [st EXCEPT !.mode = "LitBt"] ELSE [st EXCEPT !.lit = @ \o tok.s]
    [] m = "LitBt" ->
         IF g = "`" THEN [st EXCEPT !.mode = "Lit", !.lit = @ \o "`"]
         ELSE IF g = "}" THEN [st EXCEPT !.mode = Body(st), !.parts = AddText(@, st.lit)]
         ELSE PErr(st)
    [] m = "Cmd" -> CmdStep(st, tok)
    [] m = "CmdLit" -> IF g = "`" THEN [st EXCEPT !.mode = "CmdLitBt"]
                       ELSE [st EXCEPT !.lit = @ \o tok.s]
    [] m = "CmdLitBt" ->
         IF g = "`" THEN [st EXCEPT !.mode = "CmdLit", !.lit = @ \o "`"]
         ELSE CmdStep([st EXCEPT !.mode = "Cmd", !.args = Append(@, st.lit),
                                 !.argk = Append(@, "lit")], tok)
    [] m = "Grp" ->
         IF tok.k = "W" THEN st ELSE IF g = "{" THEN [st EXCEPT !.mode = "NS0"] ELSE PErr(st)
    [] m = "NS0" ->
         IF tok.k = "I" /\ \A i \in DOMAIN st.named : st.named[i].id # tok.s
         THEN [st EXCEPT !.mode = "NS1", !.nid = tok.s] ELSE PErr(st)
    [] m = "NS1" -> IF tok.k = "W" THEN [st EXCEPT !.mode = "NS2"] ELSE PErr(st)
    [] m = "NS2" ->
         IF g = "}" THEN PErr(st) ELSE StrStep([st EXCEPT !.mode = "Sub", !.parts = <<>>], tok)

\* The pattern may end here.
PEnd(st) == st.mode \in {"Str", "Grp"}

PFinish(st) == IF st.mode = "Str" THEN [st EXCEPT !.main = st.parts] ELSE st

Parse(toks) == PFinish(FoldLeft(PStep, PInit, toks))

(***************************************************************************)
(* Checks on a parsed pattern.                                             *)
(***************************************************************************)
Categories == {"zero", "one", "two", "few", "many", "other"}
Signs == {"auto", "never", "always", "except_zero", "negative"}
Groups == {"auto", "never", "always", "min2"}
Lengths == {"full", "long", "medium", "short"}
Calendars == {"gregory", "buddhist", "japanese", "ethiopic", "indian", "coptic", "iso"}

\* An option or selector that is repeated has its last value.
OptMap(opts) == FoldLeft(LAMBDA f, o : (o[1] :> o[2]) @@ f, <<>>, opts)
Opt(opts, name) == LET f == OptMap(opts) IN IF name \in DOMAIN f THEN f[name] ELSE ""

PlaceholderOk(part, known) ==
  LET o == OptMap(part.opts) IN
  CASE part.kw = "" -> TRUE
    [] part.kw = "decimal" ->
         \A n \in DOMAIN o : (n = "sign" /\ o[n] \in Signs) \/ (n = "group" /\ o[n] \in Groups)
    [] part.kw = "date_time" ->
         \A n \in DOMAIN o : \/ n \in {"date", "time"} /\ o[n] \in Lengths
                             \/ n = "calendar" /\ o[n] \in Calendars
    [] part.kw \in {"plural", "ordinal"} ->
         /\ "other" \in DOMAIN o
         /\ \A n \in DOMAIN o : n \in Categories /\ o[n] \in known
    [] part.kw = "select" -> \A n \in DOMAIN o : o[n] \in known
    [] OTHER -> FALSE

StrVal(t) == [k |-> "str", v |-> t]

\* Commands: what a function answers for its parameters (the first is the command itself).
Orc(orc, key) == IF key \in DOMAIN orc THEN orc[key]
                 ELSE Assert(FALSE, <<"the scenario lacks a fact", key>>)

Shown(v) == v.k \o ":" \o (IF v.k \in {"dt", "date", "time", "ld"} THEN "?" ELSE v.v)
ShowAll(args) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ";") \o Shown(args[i]), "",
                          [i \in DOMAIN args |-> i])
Apply(fn, args, orc) ==
  CASE fn = "echo" -> [ok |-> TRUE, s |-> "<" \o ShowAll(args) \o ">"]
    [] fn = "echo2" -> [ok |-> TRUE, s |-> "<<" \o ShowAll(args) \o ">"]
    [] fn = "file_path" -> IF Len(args) >= 2 /\ args[1].k = "str" /\ args[2].k = "str"
                           THEN [ok |-> TRUE, s |-> args[2].v] ELSE [ok |-> FALSE, s |-> ""]
    [] fn = "english_a_or_an" ->
         IF Len(args) >= 2 /\ args[1].k = "str" /\ args[2].k = "str"
         THEN [ok |-> TRUE,
               s |-> IF args[2].v # "" /\ SubSeq(args[2].v, 1, 1) \in {"a", "e", "i", "o", "u"} THEN "an" ELSE "a"]
         ELSE [ok |-> FALSE, s |-> ""]
    [] OTHER -> [ok |-> FALSE, s |-> ""]

\* What a built-in command says of unsuitable arguments: the error, the command, and the argument.
Complaint(fn, args) ==
  IF fn \notin {"file_path", "english_a_or_an"} THEN <<"*">>
  ELSE IF args[1].k # "str" THEN <<"InvalidType", "*", 0>>
  ELSE IF Len(args) < 2 THEN <<"ParameterMissing", args[1].v, 1>> ELSE <<"InvalidType", args[1].v, 1>>

\* cmds: name of a command -> function
CallCommand(cmds, args, orc) ==
  IF args[1].v \in DOMAIN cmds THEN Apply(cmds[args[1].v], args, orc) ELSE [ok |-> FALSE, s |-> ""]

PartOk(part, known, cmds, orc) ==
  CASE part.p = "ph" -> PlaceholderOk(part, known)
    [] part.p = "cmd" -> /\ part.argk[1] = "id"
                         /\ part.delay \/ CallCommand(cmds, [i \in DOMAIN part.args |-> StrVal(part.args[i])], orc).ok
    [] OTHER -> TRUE

\* A named string may refer to the named strings before it, the main string to all of them.
NamedIds(st, n) == {st.named[i].id : i \in 1 .. n}
AnalyseOk(st, cmds, orc) ==
  /\ \A i \in DOMAIN st.named :
       /\ st.named[i].id # "_"
       /\ \A j \in DOMAIN st.named[i].parts : PartOk(st.named[i].parts[j], NamedIds(st, i - 1), cmds, orc)
  /\ \A j \in DOMAIN st.main : PartOk(st.main[j], NamedIds(st, Len(st.named)), cmds, orc)

\* A text to a pattern.  ok: whether it is accepted.  raw: there is no grammar character in it.
Compile(chars, cmds, orc) ==
  LET toks == Lex(chars, GrammarChars)
      raw == \A i \in DOMAIN toks : toks[i].k # "G"
      st == IF raw THEN PInit ELSE Parse(toks)
  IN [ok |-> raw \/ (PEnd(st) /\ AnalyseOk(st, cmds, orc)),
      raw |-> raw, text |-> TextOf(chars), main |-> st.main, named |-> st.named]

(***************************************************************************)
(* Rendering: [st |-> "ok", s |-> text], [st |-> "err"], or [st |-> "any"]  *)
(* where nothing is promised.                                              *)
(***************************************************************************)
RErr == [st |-> "err", s |-> ""]
RAny == [st |-> "any", s |-> ""]
ROk(t) == [st |-> "ok", s |-> t]
Fact(orc, key) == LET a == Orc(orc, key) IN IF a = "!" THEN RErr ELSE ROk(a)

TextKinds == {"str", "tag", "loc"}
NumberKinds == {"dec", "uns", "int", "flt"}

FindNamed(pat, id) == pat.named[CHOOSE i \in DOMAIN pat.named : pat.named[i].id = id].parts

\* Selector of a choice: the named string for the wanted selector, otherwise that of `other`.
Chosen(opts, want) ==
  LET o == OptMap(opts) IN
  IF want \in DOMAIN o THEN o[want] ELSE IF "other" \in DOMAIN o THEN o["other"] ELSE ""

\* num: text of the number that selected the string, empty if no number did.
RECURSIVE RenderParts(_, _, _, _, _, _, _)
RenderPart(pat, part, num, vals, lang, cmds, orc) ==
  CASE part.p = "text" -> ROk(part.s)
    [] part.p = "num" -> ROk(num)
    [] part.p = "cmd" ->
         LET args == [i \in DOMAIN part.args |->
                       IF i > 1 /\ part.delay /\ part.args[i] \in DOMAIN vals THEN vals[part.args[i]]
                       ELSE StrVal(part.args[i])]
             r == CallCommand(cmds, args, orc)
         IN IF r.ok THEN ROk(r.s) ELSE RErr
    [] part.p = "ph" ->
         IF part.id \notin DOMAIN vals THEN RErr ELSE
         LET v == vals[part.id] IN
         CASE part.kw = "" -> IF v.k \in TextKinds THEN ROk(v.v) ELSE RErr
           [] part.kw = "decimal" ->
                IF v.k \in NumberKinds
                THEN Fact(orc, "dec|" \o lang \o "|" \o v.k \o "|" \o v.v \o "|"
                               \o Opt(part.opts, "sign") \o "|" \o Opt(part.opts, "group"))
                ELSE RErr
           [] part.kw = "date_time" ->
                LET w == IF v.k = "str" THEN IsoOutcome(v.ch)
                         ELSE IF v.k \in {"dt", "date", "time"} THEN [st |-> v.k, key |-> v.v]
                         ELSE [st |-> "err"]
                IN IF w.st \in {"dt", "date", "time"}
                   THEN Fact(orc, "dt|" \o lang \o "|" \o w.st \o "|" \o w.key \o "|"
                                  \o Opt(part.opts, "date") \o "|" \o Opt(part.opts, "time") \o "|"
                                  \o Opt(part.opts, "calendar"))
                   ELSE [st |-> w.st, s |-> ""]
           [] part.kw \in {"plural", "ordinal"} ->
                IF v.k \notin (IF part.kw = "plural" THEN NumberKinds ELSE {"uns"}) THEN RErr ELSE
                LET cat == Orc(orc, (IF part.kw = "plural" THEN "card|" ELSE "ord|")
                                    \o lang \o "|" \o v.k \o "|" \o v.v)
                    shown == Orc(orc, "dec|" \o lang \o "|" \o v.k \o "|" \o v.v \o "||")
                IN IF cat = "!" \/ shown = "!" THEN RErr
                   ELSE RenderParts(pat, FindNamed(pat, Chosen(part.opts, cat)), shown, vals, lang, cmds, orc)
           [] part.kw = "select" ->
                IF v.k \notin TextKinds THEN RErr ELSE
                LET n == Chosen(part.opts, v.v) IN
                IF n = "" THEN RErr
                ELSE RenderParts(pat, FindNamed(pat, n), "", vals, lang, cmds, orc)

RenderParts(pat, parts, num, vals, lang, cmds, orc) ==
  FoldLeft(LAMBDA acc, part :
             IF acc.st # "ok" THEN acc
             ELSE LET r == RenderPart(pat, part, num, vals, lang, cmds, orc) IN
                  [st |-> r.st, s |-> IF r.st = "ok" THEN acc.s \o r.s ELSE ""],
           ROk(""), parts)

\* A text without grammar characters is itself.
Render(pat, vals, lang, cmds, orc) ==
  IF ~pat.ok THEN RErr
  ELSE IF pat.raw THEN ROk(pat.text)
  ELSE RenderParts(pat, pat.main, "", vals, lang, cmds, orc)
=============================================================================
