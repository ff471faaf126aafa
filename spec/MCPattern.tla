----------------------------- MODULE MCPattern -----------------------------
(***************************************************************************)
(* Patterns, built token by token with the parser of Pattern in step.      *)
(* Which identifiers are tried depends on where the parser is, so that     *)
(* keywords, options, selectors and commands are reached.  A pattern that  *)
(* is refused is not continued.                                            *)
(*                                                                         *)
(* Checks the design, and prints every pattern for replay on the           *)
(* implementation: as it is (mostly refused, as it ends abruptly) and      *)
(* closed (mostly accepted).                                               *)
(***************************************************************************)
EXTENDS Pattern, Json
CONSTANTS MaxTokens, Alpha   \* Alpha: "small" or "large"

VARIABLES toks, st
vars == <<toks, st>>

T(s, k) == [s |-> s, k |-> k]
Ids(m) ==
  LET large == Alpha = "large" IN
  CASE m = "Pat0" -> {"a", "b"}
    [] m = "Pat" -> {"decimal", "select", "plural"} \union (IF large THEN {"ordinal", "date_time", "bogus"} ELSE {})
    [] m = "Key" -> {"other", "sign"} \union (IF large THEN {"one", "group", "date", "calendar", "vA"} ELSE {})
    [] m = "KeyVal" -> {"x", "always"} \union (IF large THEN {"y", "never", "full", "iso"} ELSE {})
    [] m = "Cmd" -> {"echo", "a"} \union (IF large THEN {"fail", "file_path", "z"} ELSE {})
    [] m = "CmdLitBt" -> {"a"}
    [] m = "NS0" -> {"x"} \union (IF large THEN {"y", "_"} ELSE {})
    [] OTHER -> {"a"}

Last1 == IF toks = <<>> THEN "" ELSE Last(toks).k
Tokens ==
  {T(g, "G") : g \in {"{", "}", "`", "#"}}
  \union (IF Last1 = "I" THEN {} ELSE {T(i, "I") : i \in Ids(st.mode)})
  \union (IF Last1 = "W" THEN {} ELSE {T(" ", "W")})
  \union (IF Last1 = "S" THEN {} ELSE {T("!", "S")})

\* What ends the pattern at this point.
G(s) == T(s, "G")
Close(p) ==
  LET tail == IF p.sub THEN <<G("}")>> ELSE <<>> IN
  CASE p.mode \in {"Str", "Grp"} -> <<>>
    [] p.mode = "Sub" -> <<G("}")>>
    [] p.mode = "Esc" -> <<G("`")>> \o tail
    [] p.mode = "Pat0" -> <<T("q", "I"), G("}")>> \o tail
    [] p.mode \in {"Pat", "Key", "LitBt", "Cmd", "CmdLitBt"} -> <<G("}")>> \o tail
    [] p.mode = "KeyHash" -> <<G("#"), T("x", "I"), G("}")>> \o tail
    [] p.mode = "KeyVal" -> <<T("x", "I"), G("}")>> \o tail
    [] p.mode \in {"Lit", "CmdLit"} -> <<G("`"), G("}")>> \o tail
    [] p.mode = "NS0" -> <<T("w", "I"), T(" ", "W"), T("t", "I"), G("}")>>
    [] p.mode = "NS1" -> <<T(" ", "W"), T("t", "I"), G("}")>>
    [] p.mode = "NS2" -> <<T("t", "I"), G("}")>>
    [] OTHER -> <<>>
\* A selector needs its named string.
Closed(p, t) ==
  LET all == t \o Close(p)
      q == FoldLeft(PStep, p, Close(p))
  IN IF q.mode = "Str" /\ \E i \in DOMAIN q.parts : q.parts[i].p = "ph" /\ q.parts[i].kw \in {"select", "plural", "ordinal"}
     THEN all \o <<G("#"), G("{"), T("x", "I"), T(" ", "W"), G("#"), T("t", "I"), G("}"),
                   G("{"), T("y", "I"), T(" ", "W"), T("u", "I"), G("}")>>
     ELSE all

TextOfToks(t) == FoldLeft(LAMBDA a, x : a \o x.s, "", t)
Emit(p, t) == /\ PrintT("GEN " \o ToJson(TextOfToks(t)))
              /\ IF p.mode \in {"Err", "Str", "Grp"} /\ Closed(p, t) = t THEN TRUE
                 ELSE PrintT("GEN " \o ToJson(TextOfToks(Closed(p, t))))

Init == toks = <<>> /\ st = PInit
Next == /\ Len(toks) < MaxTokens
        /\ st.mode # "Err"
        /\ \E t \in Tokens :
             /\ toks' = Append(toks, t)
             /\ st' = PStep(st, t)
             /\ Emit(st', toks')
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Modes == {"Str", "Sub", "Esc", "Pat0", "Pat", "Key", "KeyHash", "KeyVal", "Lit", "LitBt", "Cmd",
          "CmdLit", "CmdLitBt", "Grp", "NS0", "NS1", "NS2", "Err"}
AllParts(p) == p.parts \o p.main \o FoldLeft(LAMBDA a, n : a \o n.parts, <<>>, p.named)

TypeOk == st.mode \in Modes
\* A placeholder, and a named string, occurs once.
UniquePlaceholders ==
  LET ps == AllParts(st)
      ids == SelectSeq(ps, LAMBDA x : x.p = "ph")
  IN \A i, j \in DOMAIN ids : ids[i].id = ids[j].id => i = j
UniqueNamed == \A i, j \in DOMAIN st.named : st.named[i].id = st.named[j].id => i = j
\* The number sign stands for a number only in named strings, never in the main string.
NumberOnlyInNamed ==
  \A i \in DOMAIN st.main : st.main[i].p # "num"
\* Neighbouring texts are one text.
TextsMerged ==
  LET ok(s) == \A i \in 1 .. Len(s) - 1 : ~(s[i].p = "text" /\ s[i+1].p = "text") IN
  ok(st.parts) /\ ok(st.main) /\ \A i \in DOMAIN st.named : ok(st.named[i].parts)
\* An accepted pattern can be rendered: there is a text or an error for any values, and with no
\* placeholders and no commands there is a text.
Cmds == [echo |-> "echo", fail |-> "fail"]
Vals == [a |-> [k |-> "str", v |-> "x", ch |-> <<"x">>], b |-> [k |-> "str", v |-> "other", ch |-> <<"o">>]]
RenderTotal ==
  LET p == PFinish(st) IN
  (PEnd(st) /\ AnalyseOk(p, Cmds, <<>>)) =>
    LET pat == [ok |-> TRUE, raw |-> FALSE, text |-> "", main |-> p.main, named |-> p.named]
        r == Render(pat, Vals, "en", Cmds, <<>>)
    IN /\ r.st \in {"ok", "err", "any"}
       /\ (\A i \in DOMAIN AllParts(p) : AllParts(p)[i].p \in {"text", "num"}) => r.st = "ok"
\* What closes a pattern leads to the end of it, unless a command has no name.
CloseCloses == st.mode # "Err" =>
  LET q == FoldLeft(PStep, st, Close(st)) IN
  PEnd(q) \/ (st.mode = "Cmd" /\ st.args = <<>>)
Sticky == [][st.mode = "Err" => st'.mode = "Err"]_vars

\* Coverage of deeper patterns: parser states that differ only in the names seen are visited once.
Cap(n, m) == IF n > m THEN m ELSE n
View == <<st.mode, st.sub, st.kw, Cap(Len(st.opts), 1), Cap(Len(st.named), 2),
          IF st.parts = <<>> THEN "" ELSE Last(st.parts).p, Cap(Cardinality(st.ids), 2), Cap(Len(st.args), 3),
          st.argk # <<>> /\ Head(st.argk) = "id", st.delay, st.mode \in {"Err", "Cmd", "Key"} \/ Last1 = "G", st.lit # "">>
=============================================================================
