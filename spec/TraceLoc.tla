------------------------------ MODULE TraceLoc ------------------------------
(* Validates recorded histories of a localiser against Localiser.          *)
EXTENDS Localiser, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n, k, st
vars == <<n, k, st>>

Chars(x) == [i \in DOMAIN x.ch |-> [c |-> x.ch[i], w |-> x.cl[i], b |-> 1]]
Env(sc) == [strs |-> [i \in DOMAIN sc.strs |-> Chars(sc.strs[i])], chain |-> sc.chain,
            orc |-> sc.orc, why |-> sc.why, places |-> sc.places, fixed |-> sc.fixed, living |-> ToSetOf(sc.living)]
RowMap(rows) == FoldLeft(LAMBDA f, r : (<<r[1], r[2], r[3]>> :> r[4]) @@ f, <<>>, rows)

\* An error that is localised says the same by itself.
Plainly(op) == ("e" \in DOMAIN op /\ "plain" \in DOMAIN op.o) => op.o.plain = PlainText(op.e)

Init == /\ n \in 1 .. Len(Scen)
        /\ k = 0
        /\ st = LInit(Scen[n].tag, Scen[n].fb, Scen[n].ca, RowMap(Scen[n].rows), Scen[n].def, Scen[n].cmds)

Next == /\ k < Len(Scen[n].steps)
        /\ LET sc == Scen[n]
               op == sc.steps[k + 1]
               env == Env(sc)
               r == LStep(env, st, op)
           IN IF LMatch(env, r.st, r.res, op.o) /\ (sc.plain => Plainly(op))
              THEN /\ k' = k + 1
                   /\ st' = Learn(env, r.st, r.res, op.o)
                   /\ n' = n
              ELSE /\ PrintT("MISMATCH " \o ToJson([n |-> sc.n, k |-> k, want |->
                        IF sc.plain /\ "e" \in DOMAIN op THEN [res |-> r.res, plain |-> PlainText(op.e)] ELSE r.res]))
                   /\ FALSE

Spec == Init /\ [][Next]_vars
=============================================================================
