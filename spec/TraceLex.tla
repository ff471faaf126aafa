------------------------------ MODULE TraceLex ------------------------------
(* Validates recorded runs of the lexer against Lexer: the characters are  *)
(* fed one by one, and the tokens are compared at the end.                 *)
EXTENDS Lexer, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k
vars == <<n, k>>

SetOf(l) == {l[i] : i \in DOMAIN l}
Chars(sc) == [i \in DOMAIN sc.cls |-> [c |-> sc.cls[i][1], w |-> sc.cls[i][2], b |-> sc.cls[i][3]]]

\* Graphemes are those of the text of a token; a token starts after those of the tokens before it.
TokenOk(want, t, prev) ==
  /\ t.s = want.s /\ t.k = want.k
  /\ t.sb = want.sb /\ t.sc = want.sc /\ t.lb = want.lb /\ t.lc = want.lc
  /\ t.eb = want.sb + want.lb
  /\ t.lg = t.gc /\ t.sg = prev

RECURSIVE TokensOk(_, _, _, _)
TokensOk(want, toks, i, g) ==
  IF i > Len(want) THEN TRUE
  ELSE TokenOk(want[i], toks[i], g) /\ TokensOk(want, toks, i + 1, g + toks[i].lg)

Allowed(sc) ==
  LET want == LexOutcome(Chars(sc), SetOf(sc.g))
      o == sc.o
  IN IF want.r = "err" THEN o.r = "err" /\ o.e = want.e
     ELSE o.r = "ok" /\ Len(o.tokens) = Len(want.toks) /\ TokensOk(want.toks, o.tokens, 1, 0)

Init == n \in 1 .. Len(Scen) /\ k = 0
Next == /\ k = 0
        /\ IF Allowed(Scen[n]) THEN k' = 1 /\ n' = n
           ELSE PrintT("MISMATCH " \o ToJson([n |-> Scen[n].n, k |-> 0,
                         want |-> LexOutcome(Chars(Scen[n]), SetOf(Scen[n].g))])) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
