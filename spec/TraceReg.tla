------------------------------ MODULE TraceReg ------------------------------
(* Validates recorded histories of a registry against Registry.            *)
EXTENDS Registry, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k, st
vars == <<n, k, st>>

Init == n \in 1 .. Len(Scen) /\ k = 0 /\ st = RInit
Next == /\ k < Len(Scen[n].steps)
        /\ LET op == Scen[n].steps[k + 1]
               r == RCall(st, op, Scen[n].canon, op.o)
           IN IF r.ok THEN k' = k + 1 /\ st' = r.st /\ n' = n
              ELSE PrintT("MISMATCH " \o ToJson([n |-> Scen[n].n, k |-> k, want |-> st])) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
