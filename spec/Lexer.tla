------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer: splits a text into tokens, from left to right, one character *)
(* at a time.  The class of a character comes from Unicode (properties     *)
(* Pattern_White_Space and Pattern_Syntax) and is an input of the model:   *)
(*   "W" white space, "S" syntax, "I" everything else.                     *)
(* A character is a record [c |-> text, w |-> class, b |-> UTF-8 length].  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\* Kind of token that a character belongs to.  Grammar characters are the
\* syntax characters which the caller listed.
KindOf(ch, grammar) ==
  IF ch.w = "W" THEN "W"
  ELSE IF ch.w = "S" THEN (IF ch.c \in grammar THEN "G" ELSE "S")
  ELSE "I"

\* State of the lexer: the finished tokens, the last one may still grow.
LexInit == [toks |-> <<>>, nb |-> 0, nc |-> 0]

\* One character: it extends the last token if both are of the same kind,
\* but a grammar character is always a token of its own.
LexStep(st, ch, grammar) ==
  LET k == KindOf(ch, grammar)
      n == Len(st.toks)
      grow == n > 0 /\ k # "G" /\ st.toks[n].k = k
  IN [toks |-> IF grow
               THEN [st.toks EXCEPT ![n] =
                       [@ EXCEPT !.s = @ \o ch.c, !.lb = @ + ch.b, !.lc = @ + 1]]
               ELSE Append(st.toks, [s |-> ch.c, k |-> k, sb |-> st.nb, sc |-> st.nc,
                                     lb |-> ch.b, lc |-> 1]),
      nb |-> st.nb + ch.b,
      nc |-> st.nc + 1]

Lex(chars, grammar) ==
  FoldLeft(LAMBDA st, ch : LexStep(st, ch, grammar), LexInit, chars).toks

\* What a caller gets for a text: an empty grammar, or an empty text, is refused.
LexOutcome(chars, grammar) ==
  IF grammar = {} THEN [r |-> "err", e |-> "NoGrammar"]
  ELSE IF chars = <<>> THEN [r |-> "err", e |-> "EmptyString"]
  ELSE [r |-> "ok", toks |-> Lex(chars, grammar)]

-----------------------------------------------------------------------------
(* Properties of a lexer state, for the characters consumed so far.        *)

Concat(seq) == FoldLeft(LAMBDA a, b : a \o b, "", seq)
TextOf(chars) == Concat([i \in DOMAIN chars |-> chars[i].c])

\* Nothing is lost, added or reordered.
Lossless(st, chars) == Concat([i \in DOMAIN st.toks |-> st.toks[i].s]) = TextOf(chars)

\* Tokens follow each other without a gap, and the last one ends the text.
Contiguous(st) ==
  LET t == st.toks IN
  /\ \A i \in DOMAIN t : /\ t[i].lc > 0
                         /\ t[i].sb = (IF i = 1 THEN 0 ELSE t[i-1].sb + t[i-1].lb)
                         /\ t[i].sc = (IF i = 1 THEN 0 ELSE t[i-1].sc + t[i-1].lc)
  /\ t # <<>> => /\ st.nb = Last(t).sb + Last(t).lb
                 /\ st.nc = Last(t).sc + Last(t).lc

\* Runs are maximal, and a grammar token is a single character.
MaximalRuns(st) ==
  LET t == st.toks IN
  /\ \A i \in 1 .. Len(t) - 1 : t[i].k = t[i+1].k => t[i].k = "G"
  /\ \A i \in DOMAIN t : t[i].k = "G" => t[i].lc = 1
=============================================================================
