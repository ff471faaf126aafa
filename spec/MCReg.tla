------------------------------- MODULE MCReg -------------------------------
(***************************************************************************)
(* All short histories of one registry, over a few spellings of two tags   *)
(* and a malformed one.  The registry is the state machine of Registry;    *)
(* its answers are the ones a correct registry gives.  Every history is    *)
(* printed, so that the driver can replay it.                              *)
(***************************************************************************)
EXTENDS Registry, Json
CONSTANT Depth

Canon == [x \in {"en-ZA", "en_ZA", "EN-za", "fr", "Fr", "12 x"} |->
            CASE x \in {"en-ZA", "en_ZA", "EN-za"} -> "en-ZA"
              [] x \in {"fr", "Fr"} -> "fr"
              [] OTHER -> "!"]
Ops == {[op |-> o, t |-> t] : o \in {"tag"}, t \in DOMAIN Canon}
       \union {[op |-> "icu", t |-> t] : t \in {"en-ZA", "en_ZA", "Fr"}}
       \union {[op |-> o] : o \in {"list", "depr", "all"}}

VARIABLES st, h
vars == <<st, h>>

\* Instances are numbered in the order in which they are first handed out.
Inst(f, c) == IF c \in DOMAIN f THEN f[c] ELSE Cardinality(DOMAIN f)
Rep(c, k) == [i \in 1 .. k |-> <<c, st.hand[c]>>]
Listing(count(_)) ==
  LET cs == SetToSeq(st.tags) IN FlattenSeq([i \in DOMAIN cs |-> Rep(cs[i], count(cs[i]))])
Answer(op) ==
  CASE op.op \in {"tag", "icu"} ->
         LET c == Canon[op.t] IN
         IF c = "!" THEN [r |-> "err", e |-> "x"]
         ELSE [r |-> "ok", t |-> c, icu |-> c, p |-> Inst(st.hand, c), q |-> Inst(st.icu, c)]
    [] op.op = "list" -> [r |-> "ok", l |-> Listing(LAMBDA c : 1)]
    [] op.op = "depr" -> [r |-> "ok", l |-> Listing(LAMBDA c : DeprCount(st, Canon, c))]
    [] op.op = "all" -> [r |-> "ok", l |-> Listing(LAMBDA c : 1 + DeprCount(st, Canon, c))]

Init == st = RInit /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E op \in Ops :
             LET r == RCall(st, op, Canon, Answer(op)) IN
             /\ Assert(r.ok, <<"a right answer is refused", op, st>>)
             /\ st' = r.st
             /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars

\* No tag is also held as another spelling; every spelling leads to a tag; all have an instance of their own.
Sound ==
  /\ st.tags \intersect st.depr = {}
  /\ \A s \in st.depr : Canon[s] \in st.tags
  /\ DOMAIN st.hand = st.tags
  /\ DOMAIN st.icu \subseteq st.tags
  /\ \A c, d \in st.tags : st.hand[c] = st.hand[d] => c = d
\* Nothing is ever forgotten, and no instance replaced.
Grows == [][/\ st.tags \subseteq st'.tags /\ st.depr \subseteq st'.depr
            /\ \A c \in DOMAIN st.hand : st'.hand[c] = st.hand[c]]_vars
\* A wrong answer is refused: the same tag twice with two instances, or two tags with one.
Rejects ==
  \A c \in st.tags :
    ~RCall(st, [op |-> "tag", t |-> c], Canon,
           [r |-> "ok", t |-> c, icu |-> c, p |-> 99, q |-> 99]).ok
Emit == Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
