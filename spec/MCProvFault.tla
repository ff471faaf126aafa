----------------------------- MODULE MCProvFault ----------------------------
(***************************************************************************)
(* A provider whose reads of the files can fail.  A query reads several    *)
(* parts, one after the other; the details are remembered once all parts   *)
(* are there.  Checked for every place and number of failures: an answer   *)
(* is whole, an error comes only from a call in which a read failed, and   *)
(* what is remembered is whole, so the failure leaves no trace.            *)
(* MCProvFault_early.cfg: what is remembered before it is whole breaks it; *)
(* MCProvFault_skip.cfg: so does a read that fails and is passed over.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Parts, Calls, Early, Skip

Kinds == {"string", "details"}
Whole == [k \in 1 .. Parts |-> k]
None == <<0>>
Error == <<9>>

VARIABLES pc, kind, got, hit, memo, calls, answers
vars == <<pc, kind, got, hit, memo, calls, answers>>

Init == /\ pc = "idle" /\ kind = "string" /\ got = <<>> /\ hit = FALSE
        /\ memo = None /\ calls = 0 /\ answers = {}

Say(what) == answers' = answers \union {[k |-> kind, a |-> what, hit |-> hit']}
Call == /\ pc = "idle" /\ calls < Calls
        /\ calls' = calls + 1 /\ hit' = FALSE /\ got' = <<>>
        /\ \E q \in Kinds :
             /\ kind' = q
             /\ IF q = "details" /\ memo # None
                THEN pc' = "idle" /\ answers' = answers \union {[k |-> q, a |-> memo, hit |-> FALSE]}
                ELSE pc' = "read" /\ answers' = answers
        /\ memo' = memo
Part(at) == Whole[at]
Read == /\ pc = "read" /\ Len(got) < Parts
        /\ got' = Append(got, Part(Len(got) + 1))
        /\ memo' = IF Early /\ kind = "details" /\ memo = None THEN got' ELSE memo
        /\ UNCHANGED <<pc, kind, hit, calls, answers>>
Fail == /\ pc = "read" /\ Len(got) < Parts /\ hit' = TRUE
        /\ IF Skip THEN got' = Append(got, 0) /\ pc' = pc /\ answers' = answers
           ELSE got' = got /\ pc' = "idle" /\ Say(Error)
        /\ UNCHANGED <<kind, memo, calls>>
End == /\ pc = "read" /\ Len(got) = Parts /\ pc' = "idle" /\ hit' = hit
       /\ memo' = IF kind = "details" /\ memo = None THEN got ELSE memo
       /\ Say(IF kind = "details" THEN memo' ELSE got)
       /\ UNCHANGED <<kind, got, calls>>
Stop == pc = "idle" /\ calls = Calls /\ UNCHANGED vars
Next == Call \/ Read \/ Fail \/ End \/ Stop
Spec == Init /\ [][Next]_vars

Right == \A x \in answers : x.a = Whole \/ (x.a = Error /\ x.hit)
NoTrace == pc = "idle" => memo \in {None, Whole}
=============================================================================
