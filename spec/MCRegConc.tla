----------------------------- MODULE MCRegConc -----------------------------
(***************************************************************************)
(* Threads that share a registry, at the grain of its locks.  One map of   *)
(* canonical tags and one of other spellings, each behind a lock; a lookup *)
(* that misses releases the lock, so another thread may register the tag   *)
(* before this one does.  Checked for every interleaving:                  *)
(*   all threads get the same instance of a tag, it is the registered one, *)
(*   the maps end as if the calls had been made one after the other, and   *)
(*   nobody waits for ever.                                                *)
(* Recheck = FALSE is the design that overwrites: TLC shows why it is      *)
(* wrong (see MCRegConc_wrong.cfg).                                        *)
(***************************************************************************)
EXTENDS Registry
CONSTANTS Threads, Scripts, Recheck

Canon == [x \in {"en-ZA", "en_ZA", "EN-za", "fr"} |-> IF x = "fr" THEN "fr" ELSE "en-ZA"]
Scripts1 == <<"en_ZA", "en-ZA">>
Scripts2 == <<"EN-za", "en_ZA">>
Scripts3 == <<"en-ZA", "fr">>
Script(t) == <<Scripts1, Scripts2, Scripts3>>[t]
ASSUME Scripts = 2

VARIABLES pc, at, tags, depr, lockT, got, mine, fresh
vars == <<pc, at, tags, depr, lockT, got, mine, fresh>>
None == 0

Init == /\ pc = [t \in Threads |-> "tags1"]
        /\ at = [t \in Threads |-> 1]
        /\ tags = <<>> /\ depr = <<>>      \* spelling -> instance
        /\ lockT = None
        /\ got = [t \in Threads |-> <<>>]  \* answers so far
        /\ mine = [t \in Threads |-> 0]     \* the instance a thread goes on with
        /\ fresh = 0

Sp(t) == Script(t)[at[t]]
C(t) == Canon[Sp(t)]
Free(t) == lockT \in {None, t}
Put(f, x, v) == (x :> v) @@ f
Return(t, p) == /\ got' = [got EXCEPT ![t] = Append(@, <<C(t), p>>)]
                /\ at' = [at EXCEPT ![t] = @ + 1]
                /\ pc' = [pc EXCEPT ![t] = IF at[t] = Len(Script(t)) THEN "done" ELSE "tags1"]
Go(t, l) == pc' = [pc EXCEPT ![t] = l] /\ UNCHANGED <<at, got>>

Tags1(t) == /\ pc[t] = "tags1" /\ Free(t)
            /\ IF Sp(t) \in DOMAIN tags THEN Return(t, tags[Sp(t)]) ELSE Go(t, "depr1")
            /\ UNCHANGED <<tags, depr, lockT, mine, fresh>>
Depr1(t) == /\ pc[t] = "depr1"
            /\ IF Sp(t) \in DOMAIN depr THEN Return(t, depr[Sp(t)]) ELSE Go(t, "tags2")
            /\ UNCHANGED <<tags, depr, lockT, mine, fresh>>
\* The lock of the tags is held while the spelling is noted.
Tags2(t) == /\ pc[t] = "tags2" /\ Free(t)
            /\ IF C(t) \in DOMAIN tags THEN lockT' = t /\ Go(t, "depr2") ELSE lockT' = lockT /\ Go(t, "insert")
            /\ UNCHANGED <<tags, depr, mine, fresh>>
Depr2(t) == /\ pc[t] = "depr2"
            /\ depr' = IF Sp(t) = C(t) THEN depr ELSE Put(depr, Sp(t), tags[C(t)])
            /\ lockT' = None
            /\ Return(t, tags[C(t)])
            /\ UNCHANGED <<tags, mine, fresh>>
Insert(t) == /\ pc[t] = "insert" /\ Free(t)
             /\ fresh' = fresh + 1
             /\ tags' = IF Recheck /\ C(t) \in DOMAIN tags THEN tags ELSE Put(tags, C(t), fresh)
             /\ mine' = [mine EXCEPT ![t] = tags'[C(t)]]
             /\ IF Sp(t) = C(t) THEN Return(t, tags'[C(t)]) ELSE Go(t, "note")
             /\ UNCHANGED <<depr, lockT>>
Note3(t) == /\ pc[t] = "note"
            /\ depr' = Put(depr, Sp(t), mine[t])
            /\ Return(t, mine[t])
            /\ UNCHANGED <<tags, lockT, mine, fresh>>
Done == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Step(t) == Tags1(t) \/ Depr1(t) \/ Tags2(t) \/ Depr2(t) \/ Insert(t) \/ Note3(t)
Next == Done \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Answers == UNION {{got[t][i] : i \in DOMAIN got[t]} : t \in Threads}
Shared == \A a, b \in Answers : a[1] = b[1] => a[2] = b[2]
Registered == \A a \in Answers : a[1] \in DOMAIN tags /\ tags[a[1]] = a[2]
Spellings == \A s \in DOMAIN depr : Canon[s] \in DOMAIN tags /\ depr[s] = tags[Canon[s]] /\ s # Canon[s]
AtEnd == (\A t \in Threads : pc[t] = "done") =>
           LET asked == UNION {{Script(t)[i] : i \in DOMAIN Script(t)} : t \in Threads} IN
           /\ DOMAIN tags = {Canon[s] : s \in asked}
           /\ DOMAIN depr = {s \in asked : s # Canon[s]}
Ends == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
