----------------------------- MODULE TraceProv -----------------------------
(* Validates recorded calls on a provider against Provider.                *)
EXTENDS Provider, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)
\* rot: files that are damaged; then there is an answer or an error, but no crash.
\* gone: files that were taken away while the provider is open; then a query may fail.
\* why: what errors name counts, too.
\* hit: an access to a file was made to fail during this very call; then it may say so.
VARIABLES n, k, gone
vars == <<n, k, gone>>

Db(sc) ==
  [files |-> SetOf(sc.stems), sub |-> sc.sub,
   comps |-> {[f |-> x[1], c |-> x[2], d |-> x[3]] : x \in SetOf(sc.comps)},
   contribs |-> {[f |-> x[1], c |-> x[2], t |-> x[3], w |-> x[4]] : x \in SetOf(sc.contribs)},
   rows |-> {[f |-> x[1], c |-> x[2], i |-> x[3], t |-> x[4], s |-> x[5]] : x \in SetOf(sc.rows)}]

Bad(sc, what) == PrintT("MISMATCH " \o ToJson([n |-> sc.n, k |-> k, want |-> what])) /\ FALSE

Want(db, op) ==
  IF op.op \in {"string", "strings"} /\ Known(db, op.c) THEN Pairs(Find(db, op.c, op.i, op.t).set)
  ELSE IF op.op = "exact" /\ Known(db, op.c) THEN Pairs(Exact(db, op.c, op.i, op.t)) ELSE {<<"-", "-">>}

Answers(o) == o.r \in {"ok", "err"}
Hit(o) == "hit" \in DOMAIN o /\ o.hit
Broken(o) == Hit(o) /\ (Fails(o, {"Sqlite3"}) \/ (Fails(o, {"SchemaInvalid"}) /\ o.why = "Sqlite3"))
Allows(sc, op) ==
  CASE sc.rot -> Answers(op.o)
    [] op.op = "gone" -> TRUE
    [] op.op = "disk" -> op.o.same
    [] OTHER -> (/\ ProviderAllows(Db(sc), op, op.o)
                 /\ (sc.why /\ ~gone /\ op.o.r = "err") => Tells(op.o, CallFaults(Db(sc), op)))
                 \/ (gone /\ op.o.r = "err")
                 \/ (Hit(op.o) /\ Fails(op.o, {"Custom"}))

Init == n \in 1 .. Len(Scen) /\ k = 0 /\ gone = FALSE
Next == LET sc == Scen[n] IN
        /\ n' = n
        /\ \/ /\ k = 0 /\ gone' = gone
              /\ IF ~(IF sc.rot THEN Answers(sc.o) ELSE (OpenAllows(sc.path, sc.entries, sc.o) /\ (sc.why /\ sc.o.r = "err" => Tells(sc.o, OpenFaults(sc.path, sc.entries))))
                      \/ Broken(sc.o)) THEN Bad(sc, "open")
                 ELSE IF ~sc.same THEN Bad(sc, "the files as they were") ELSE k' = 1
           \/ /\ k > 0 /\ sc.o.r = "ok" /\ k <= Len(sc.steps)
              /\ LET op == sc.steps[k] IN
                 IF Allows(sc, op) THEN k' = k + 1 /\ gone' = (gone \/ op.op = "gone")
                 ELSE Bad(sc, IF op.op = "disk" THEN "the files as they were" ELSE Want(Db(sc), op))
Spec == Init /\ [][Next]_vars
=============================================================================
