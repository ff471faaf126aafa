----------------------------- MODULE MCProvConc -----------------------------
(***************************************************************************)
(* Threads that query one provider, at the grain of its locks.  Derived    *)
(* values (texts of queries, details) are remembered: a thread looks under *)
(* the lock, releases it on a miss, derives the value, stores it, and      *)
(* reads it again.  Checked for every interleaving: whatever is remembered *)
(* or answered for a key is the value of this key, and all threads end.    *)
(* Once = TRUE: the first stored value stays (details).  Once = FALSE: it  *)
(* is overwritten (queries).  Both are right, as the value depends on the  *)
(* key alone; Key(q) has to separate queries with different texts, and     *)
(* MCProvConc_wrong.cfg shows what happens if it does not.                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Threads, Queries, Once, Separate

Value(q) == q
Key(q) == IF Separate THEN q ELSE q[1]

VARIABLES pc, todo, cur, mine, memo, answers
vars == <<pc, todo, cur, mine, memo, answers>>
Q == {<<1, 1>>, <<1, 2>>}
Nil == <<0, 0>>

Init == /\ pc = [t \in Threads |-> "next"]
        /\ todo = [t \in Threads |-> Queries]
        /\ cur = [t \in Threads |-> Nil]
        /\ mine = [t \in Threads |-> Nil]
        /\ memo = <<>>
        /\ answers = {}

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Begin(t) == /\ pc[t] = "next" /\ todo[t] # {}
            /\ \E q \in todo[t] : cur' = [cur EXCEPT ![t] = q] /\ todo' = [todo EXCEPT ![t] = @ \ {q}]
            /\ Go(t, "look") /\ UNCHANGED <<mine, memo, answers>>
Look(t) == /\ pc[t] = "look"
           /\ IF Key(cur[t]) \in DOMAIN memo
              THEN mine' = [mine EXCEPT ![t] = memo[Key(cur[t])]] /\ Go(t, "answer")
              ELSE mine' = mine /\ Go(t, "store")
           /\ UNCHANGED <<todo, cur, memo, answers>>
Store(t) == /\ pc[t] = "store"
            /\ memo' = IF Once /\ Key(cur[t]) \in DOMAIN memo THEN memo ELSE (Key(cur[t]) :> Value(cur[t])) @@ memo
            /\ Go(t, "reread") /\ UNCHANGED <<todo, cur, mine, answers>>
Reread(t) == /\ pc[t] = "reread"
             /\ mine' = [mine EXCEPT ![t] = memo[Key(cur[t])]]
             /\ Go(t, "answer") /\ UNCHANGED <<todo, cur, memo, answers>>
Answer(t) == /\ pc[t] = "answer"
             /\ answers' = answers \union {<<cur[t], mine[t]>>}
             /\ Go(t, IF todo[t] = {} THEN "done" ELSE "next") /\ UNCHANGED <<todo, cur, mine, memo>>
Done == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Step(t) == Begin(t) \/ Look(t) \/ Store(t) \/ Reread(t) \/ Answer(t)
Next == Done \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Right == \A a \in answers : a[2] = Value(a[1])
Ends == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
