------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of language tags.                                          *)
(*   tags  canonical tags that are registered                              *)
(*   depr  other spellings under which tags were asked                     *)
(*   hand  canonical tag -> its shared instance                            *)
(*   icu   canonical tag -> the shared ICU4X instance                      *)
(* canon is a fact of ICU4X: spelling -> canonical tag, "!" if malformed.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

RInit == [tags |-> {}, depr |-> {}, hand |-> <<>>, icu |-> <<>>]

\* Effect of asking for a spelling.
RAsk(st, sp, canon) ==
  LET c == canon[sp] IN
  IF c = "!" THEN st
  ELSE [st EXCEPT !.tags = @ \union {c}, !.depr = IF sp = c THEN @ ELSE @ \union {sp}]

\* Number of entries of a tag among the other spellings.
DeprCount(st, canon, c) == Cardinality({sp \in st.depr : canon[sp] = c})

\* Instances seen: of a known tag it is the same again, of an unknown tag it is a new one.
Same(f, c, p) == IF c \in DOMAIN f THEN f[c] = p ELSE \A d \in DOMAIN f : f[d] # p
Note(f, c, p) == IF c \in DOMAIN f THEN f ELSE (c :> p) @@ f

\* A list of <<tag, instance>> that has count(c) entries for every registered tag c.
ListOk(st, l, count(_)) ==
  /\ \A i \in DOMAIN l : l[i][1] \in st.tags /\ st.hand[l[i][1]] = l[i][2]
  /\ \A c \in st.tags : Cardinality({i \in DOMAIN l : l[i][1] = c}) = count(c)

\* One call on the registry: the next state, and whether the answer is allowed.
RCall(st, op, canon, o) ==
  LET bad == [ok |-> FALSE, st |-> st]
      asks == op.op \in {"tag", "icu"}
  IN
  IF o.r \in {"panic", "crash", "hang"} THEN bad
  ELSE IF op.op \in {"tag", "icu", "icux"} /\ canon[op.t] = "!" THEN [ok |-> o.r = "err", st |-> st]
  ELSE IF o.r # "ok" THEN bad
  ELSE IF asks THEN
    LET c == canon[op.t]
        s2 == RAsk(st, op.t, canon)
    IN [ok |-> /\ o.t = c /\ o.icu = c /\ Same(st.hand, c, o.p)
               /\ op.op = "icu" => Same(st.icu, c, o.q),
        st |-> [s2 EXCEPT !.hand = Note(@, c, o.p),
                          !.icu = IF op.op = "icu" THEN Note(@, c, o.q) ELSE @]]
  ELSE IF op.op = "icux" THEN \* for a tag of another registry: this one only keeps the instance
    LET c == canon[op.t] IN
    [ok |-> o.t = c /\ o.icu = c /\ Same(st.icu, c, o.q), st |-> [st EXCEPT !.icu = Note(@, c, o.q)]]
  ELSE [st |-> st,
        ok |-> CASE op.op = "list" -> ListOk(st, o.l, LAMBDA c : 1)
                 [] op.op = "depr" -> ListOk(st, o.l, LAMBDA c : DeprCount(st, canon, c))
                 [] op.op = "all" -> ListOk(st, o.l, LAMBDA c : 1 + DeprCount(st, canon, c))]
=============================================================================
