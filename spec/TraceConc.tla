----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Validates recorded calls of several threads on one registry.  A call    *)
(* was logged with tickets from one counter: a before it, b after it.  It  *)
(* acts at one or two moments between its tickets:                         *)
(*   T  on the canonical tags    (reads them, or adds one)                 *)
(*   D  on the other spellings   (reads them, or adds one)                 *)
(* TLC looks for an order of these moments that explains all answers.      *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n,     \* scenario
          pend,  \* call -> moments that are still to come
          st,    \* registry
          seen   \* call -> what a call of "all" has read
vars == <<n, pend, st, seen>>

Moments(op, canon) ==
  CASE op.op \in {"tag", "icu"} ->
         IF canon[op.t] = "!" THEN {} ELSE IF canon[op.t] = op.t THEN {"T"} ELSE {"T", "D"}
    [] op.op = "list" -> {"T"}
    [] op.op = "depr" -> {"D"}
    [] op.op = "all" -> {"T", "D"}

Calls(sc) == DOMAIN sc.log

\* Answers that do not depend on the moment.
Static(sc, x) ==
  LET c == sc.log[x] IN
  IF c.o.r \in {"panic", "crash", "hang"} THEN FALSE
  ELSE IF c.op.op \in {"tag", "icu"}
  THEN IF sc.canon[c.op.t] = "!" THEN c.o.r = "err" ELSE c.o.r = "ok" /\ c.o.t = sc.canon[c.op.t]
  ELSE c.o.r = "ok"

\* All calls that got an instance of a tag got the same instance; it is also the registered one.
Shared(sc) ==
  LET got == {<<sc.log[x].op.op, sc.log[x].o.t, sc.log[x].o.p>> :
                x \in {y \in Calls(sc) : sc.log[y].op.op \in {"tag", "icu"} /\ sc.log[y].o.r = "ok"}}
  IN /\ Cardinality({<<g[1], g[2]>> : g \in got}) = Cardinality(got)
     /\ \A i \in DOMAIN sc.end.same : sc.end.same[i]

Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
TagBag(tags) == [x \in tags |-> 1]
DeprBag(depr, canon) ==
  [x \in {canon[s] : s \in depr} |-> Cardinality({s \in depr : canon[s] = x})]
Plus(a, b) == [x \in DOMAIN a \union DOMAIN b |->
                 (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]

\* After all threads ended.
EndOk(sc, s) ==
  /\ sc.end.r = "ok"
  /\ Bag(sc.end.list) = TagBag(s.tags)
  /\ Bag(sc.end.depr) = DeprBag(s.depr, sc.canon)
  /\ Bag(sc.end.all) = Plus(TagBag(s.tags), DeprBag(s.depr, sc.canon))

Init == /\ n \in 1 .. Len(Scen)
        /\ pend = [x \in Calls(Scen[n]) |-> Moments(Scen[n].log[x].op, Scen[n].canon)]
        /\ st = RInit
        /\ seen = [x \in Calls(Scen[n]) |-> <<>>]
        /\ IF /\ \A x \in Calls(Scen[n]) : Static(Scen[n], x)
              /\ Shared(Scen[n])
           THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([n |-> Scen[n].n, k |-> 0, want |-> "static"])) /\ FALSE

\* A call acts only after the calls that ended before it began.
May(sc, x) == \A y \in Calls(sc) : sc.log[y].b < sc.log[x].a => pend[y] = {}

\* Once no reader is left, the order of the rest does not matter: take the first call.
Reads(sc, x) == sc.log[x].op.op \in {"list", "depr", "all"}
Left(sc) == {x \in Calls(sc) : pend[x] # {}}
Ready(sc) ==
  LET left == Left(sc) IN
  IF \E x \in left : Reads(sc, x) THEN {x \in left : May(sc, x)}
  ELSE IF left = {} THEN {} ELSE {CHOOSE x \in left : \A y \in left : x <= y}

Next ==
  LET sc == Scen[n] IN
  \E x \in Ready(sc) : \E m \in pend[x] :
    /\ pend' = [pend EXCEPT ![x] = @ \ {m}]
    /\ n' = n
    /\ LET op == sc.log[x].op
           o == sc.log[x].o
       IN CASE op.op \in {"tag", "icu"} ->
                 /\ st' = IF m = "T" THEN [st EXCEPT !.tags = @ \union {sc.canon[op.t]}]
                          ELSE [st EXCEPT !.depr = @ \union {op.t}]
                 /\ seen' = seen
            [] op.op = "list" -> Bag(o.l) = TagBag(st.tags) /\ UNCHANGED <<st, seen>>
            [] op.op = "depr" -> Bag(o.l) = DeprBag(st.depr, sc.canon) /\ UNCHANGED <<st, seen>>
            [] op.op = "all" ->
                 LET got == IF m = "T" THEN TagBag(st.tags) ELSE DeprBag(st.depr, sc.canon) IN
                 /\ st' = st
                 /\ IF pend[x] = {m}
                    THEN /\ Bag(o.l) = Plus(seen[x], got)
                         /\ seen' = [seen EXCEPT ![x] = <<>>]
                    ELSE seen' = [seen EXCEPT ![x] = got]

Spec == Init /\ [][Next]_vars

\* Reports every scenario for which an explanation was found.
Report == (\A x \in DOMAIN pend : pend[x] = {}) =>
            IF EndOk(Scen[n], st) THEN PrintT("ACCEPT " \o ToJson([n |-> Scen[n].n]))
            ELSE PrintT("MISMATCH " \o ToJson([n |-> Scen[n].n, k |-> 0, want |-> "end"]))
=============================================================================
