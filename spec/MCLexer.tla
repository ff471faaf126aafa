------------------------------ MODULE MCLexer ------------------------------
(***************************************************************************)
(* Every text over a small alphabet, fed to the lexer one character at a   *)
(* time, for several grammars.  Checks the properties of the lexer on every*)
(* prefix, and prints the texts for replay on the implementation.          *)
(* The alphabet has the three classes, in one to four bytes, and marks     *)
(* that join the character before them to one grapheme.                    *)
(***************************************************************************)
EXTENDS Lexer, Json
CONSTANTS MaxLen, Full

C(c, w, b) == [c |-> c, w |-> w, b |-> b]
Small == {C("a", "I", 1), C("é", "I", 2), C("😀", "I", 4), C("́", "I", 2), C(" ", "W", 1),
          C("‎", "W", 3), C("{", "S", 1), C("#", "S", 1), C("→", "S", 3)}
Alphabet == IF Full THEN Small \union {C("ก", "I", 3), C("\t", "W", 1), C("‍", "I", 3)} ELSE Small
Grammars == {"{#", "{", "→#", ""}
GrammarSet(g) == CASE g = "{#" -> {"{", "#"} [] g = "{" -> {"{"} [] g = "→#" -> {"→", "#"} [] OTHER -> {}

VARIABLES text, g, st
vars == <<text, g, st>>

Init == text = <<>> /\ g \in Grammars /\ st = LexInit
Next == /\ Len(text) < (IF g = "{#" THEN MaxLen ELSE IF g = "" THEN 1 ELSE MaxLen - 1)
        /\ \E ch \in Alphabet : /\ text' = Append(text, ch)
                                /\ st' = LexStep(st, ch, GrammarSet(g))
        /\ g' = g
Spec == Init /\ [][Next]_vars

TextLossless == Lossless(st, text)
TextContiguous == Contiguous(st)
TextMaximalRuns == MaximalRuns(st)
\* Feeding character by character is the same as lexing the whole text.
StepsAreWhole == st.toks = Lex(text, GrammarSet(g))
\* Only listed syntax characters are grammar; white space and identifiers never are.
GrammarListed == \A i \in DOMAIN st.toks : st.toks[i].k = "G" <=> st.toks[i].s \in GrammarSet(g)
\* The tokens of a text that continues another one start with the same tokens, except the last one.
PrefixStable == \A n \in 1 .. Len(text) :
  LET p == Lex(SubSeq(text, 1, n), GrammarSet(g)) IN
  Len(p) <= Len(st.toks) /\ \A i \in 1 .. Len(p) - 1 : p[i] = st.toks[i]

Gen == PrintT("GEN " \o ToJson([s |-> TextOf(text), g |-> g]))
=============================================================================
