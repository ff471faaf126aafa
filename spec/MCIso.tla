------------------------------- MODULE MCIso -------------------------------
(***************************************************************************)
(* Dates and times in all documented forms, with fields in and out of      *)
(* their ranges: IsoTime reads from each text exactly the fields from      *)
(* which the text was written.  The texts are printed for the driver.      *)
(***************************************************************************)
EXTENDS IsoTime, FiniteSets, Json
CONSTANTS Years, Before0, Months, Days, Hours, Minutes, Seconds

D2(n) == <<ToString(n \div 10), ToString(n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
D5(n) == <<ToString(n \div 10000)>> \o D4(n % 10000)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
WriteYear(y) == IF y > 9999 THEN <<"+">> \o D5(y)
                ELSE IF y < -9999 THEN <<"-">> \o D5(Abs(y))
                ELSE IF y < 0 THEN <<"-">> \o D4(Abs(y)) ELSE D4(y)

\* [form, y, m, d] and the text of it
DateForms == {"y", "ym", "ymd", "basic"}
Dates == {x \in [form : DateForms, y : Years \union {0 - n : n \in Before0}, m : Months, d : Days] :
            /\ x.form = "y" => x.m = 1
            /\ x.form \in {"y", "ym"} => x.d = 1
            /\ x.form = "basic" => x.y \in 0 .. 9999}
WriteDate(x) ==
  CASE x.form = "y" -> WriteYear(x.y)
    [] x.form = "ym" -> WriteYear(x.y) \o <<"-">> \o D2(x.m)
    [] x.form = "ymd" -> WriteYear(x.y) \o <<"-">> \o D2(x.m) \o <<"-">> \o D2(x.d)
    [] x.form = "basic" -> D4(x.y) \o D2(x.m) \o D2(x.d)

TimeForms == {"h", "hm", "hms", "hm-basic", "hms-basic"}
Fractions == {<<>>, <<"5">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "1">>}
Zones == {<<>>, <<"Z">>, <<"+", "0", "2", ":", "0", "0">>, <<"-", "0", "3", "3", "0">>}
Times == {x \in [form : TimeForms, h : Hours, mi : Minutes, s : Seconds, fr : Fractions, z : Zones] :
            /\ x.form = "h" => x.mi = 0
            /\ x.form \in {"h", "hm", "hm-basic"} => x.s = 0 /\ x.fr = <<>>
            /\ x.fr # <<>> => x.z \in {<<>>, <<"Z">>}}
WriteTime(x) ==
  (CASE x.form = "h" -> D2(x.h)
     [] x.form = "hm" -> D2(x.h) \o <<":">> \o D2(x.mi)
     [] x.form = "hms" -> D2(x.h) \o <<":">> \o D2(x.mi) \o <<":">> \o D2(x.s)
     [] x.form = "hm-basic" -> D2(x.h) \o D2(x.mi)
     [] x.form = "hms-basic" -> D2(x.h) \o D2(x.mi) \o D2(x.s))
  \o (IF x.fr = <<>> THEN <<>> ELSE <<".">> \o x.fr) \o x.z

SomeDates == {x \in Dates : x.y = 2024 /\ x.m \in {2, 13} /\ x.d \in {29, 30}}
             \union {x \in Dates : x.form = "y"}
SomeTimes == {x \in Times : x.h \in {0, 23, 25} /\ x.mi \in {0, 59} /\ x.s \in {0, 59} /\ x.fr = <<>>}

VARIABLE c
Init == c \in {[k |-> "date", d |-> d] : d \in Dates}
              \union {[k |-> "time", t |-> t] : t \in Times}
              \union {[k |-> "dt", d |-> d, t |-> t] : d \in SomeDates, t \in SomeTimes}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Text == CASE c.k = "date" -> WriteDate(c.d)
          [] c.k = "time" -> <<"T">> \o WriteTime(c.t)
          [] c.k = "dt" -> WriteDate(c.d) \o <<"T">> \o WriteTime(c.t)

\* The same judgement from the fields alone.
DateOk(x) == x.m \in 1 .. 12 /\ x.d \in 1 .. DaysIn(x.y, x.m)
TimeOk(x) == x.h <= 24 /\ x.mi <= 59 /\ x.s <= 60
TimeOpen(x) == x.mi = 60 \/ x.s = 61
TimeBad(x) == x.h > 24 \/ x.mi > 60 \/ x.s > 61
Nano(x) == IF x.fr = <<>> THEN 0 ELSE Num(x.fr)
Right ==
  LET o == IsoOutcome(Text) IN
  CASE c.k = "date" ->
         IF DateOk(c.d) THEN o.st = "date" /\ o.key = Key(c.d.y, c.d.m, c.d.d, 0, 0, 0, 0) ELSE o.st = "err"
    [] c.k = "time" ->
         IF TimeOk(c.t) THEN o.st = "time" /\ o.key = Key(1970, 1, 1, c.t.h, c.t.mi, c.t.s, Nano(c.t))
         ELSE IF TimeBad(c.t) THEN o.st = "err" ELSE o.st = "any"
    [] c.k = "dt" ->
         IF DateOk(c.d) /\ TimeOk(c.t)
         THEN o.st = "dt" /\ o.key = Key(c.d.y, c.d.m, c.d.d, c.t.h, c.t.mi, c.t.s, Nano(c.t))
         ELSE o.st \in {"err", "any"}
Emit == PrintT("GEN " \o ToJson(FoldLeft(LAMBDA a, b : a \o b, "", Text)))
=============================================================================
