------------------------------ MODULE IsoTime ------------------------------
(***************************************************************************)
(* Date and time strings (ISO 8601) as accepted for `date_time` patterns.  *)
(* A text is a sequence of one-character strings.                          *)
(* IsoOutcome gives [st |-> "date" | "time" | "dt", key |-> "Y,M,D,h,m,s,n"]*)
(* for a text of a documented form that names an existing date and time,   *)
(* [st |-> "err"] for a documented form with fields that are out of range, *)
(* and [st |-> "any"] for a text of no documented form: nothing is         *)
(* promised about these, except that there is an answer.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL Digits == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4
                @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
IsDigit(c) == c \in DOMAIN Digits
AllDigits(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])
Num(t) == FoldLeft(LAMBDA n, c : 10 * n + Digits[c], 0, t)

\* Splits at every occurrence of c.
Split(t, c) ==
  FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)],
           << <<>> >>, t)

\* Text before the first character of the set.
RECURSIVE Before(_, _)
Before(t, cs) == IF t = <<>> \/ Head(t) \in cs THEN <<>>
                 ELSE <<Head(t)>> \o Before(Tail(t), cs)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

None == [st |-> "any"]
Bad == [st |-> "err"]

\* Of the texts of no documented form, those are refused that have something else in the
\* place of the digits of a field.  Fields are taken from the left, as long as they are there.
Ascii == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "-", ":", ".", "T", "Z", " ", "t", "z", ",",
          "e", "W", "x", "/", "_", "a"}
AllAscii(t) == \A i \in DOMAIN t : t[i] \in Ascii
Take(t, n) == SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))
Drop(t, n) == SubSeq(t, n + 1, Len(t))
RECURSIVE StripL(_, _), StripR(_, _)
StripL(t, c) == IF t # <<>> /\ Head(t) = c THEN StripL(Tail(t), c) ELSE t
StripR(t, c) == IF t # <<>> /\ Last(t) = c THEN StripR(Front(t), c) ELSE t
HasSign(t) == \E i \in DOMAIN t : t[i] \in {"+", "-"}
\* a field of digits, or one about which nothing is said because it has a sign
NoField(t) == ~HasSign(t) /\ ~AllDigits(t)
BadDate(t) ==
  /\ AllAscii(t) /\ t # <<>> /\ Head(t) # "+"
  /\ LET neg == Head(t) = "-"
         p == Split(IF neg THEN Tail(t) ELSE t, "-")
     IN IF ~neg /\ Len(p) = 1
        THEN /\ Len(t) >= 4
             /\ \/ NoField(Take(t, 4))
                \/ Len(t) >= 6 /\ NoField(SubSeq(t, 5, 6))
                \/ Len(t) >= 8 /\ NoField(SubSeq(t, 7, 8))
        ELSE \E i \in DOMAIN p : i <= 3 /\ NoField(p[i])
BadTime(t0) ==
  /\ AllAscii(t0)
  /\ LET a == StripR(Before(t0, {"+", "-"}), "Z")
         b == StripL(Drop(a, 2), ":")
         c == StripL(Drop(b, 2), ":")
         d == StripL(Drop(c, 2), ".")
     IN \/ Len(a) >= 2 /\ NoField(Take(a, 2))
        \/ Len(a) >= 2 /\ Len(b) >= 2 /\ NoField(Take(b, 2))
        \/ Len(a) >= 2 /\ Len(b) >= 2 /\ Len(c) >= 2 /\ (NoField(Take(c, 2)) \/ (d # <<>> /\ NoField(d)))
Date(y, m, d) ==
  IF m \in 1 .. 12 /\ d \in 1 .. DaysIn(y, m) THEN [st |-> "date", y |-> y, m |-> m, d |-> d]
  ELSE [st |-> "err"]

\* Year digits with a sign: 4 digits without a sign or with -, 5 to 9 digits with a sign.
YearOk(sign, t) ==
  /\ AllDigits(t) /\ Len(t) <= 9
  /\ \/ Len(t) = 4 /\ sign \in {"", "-"}
     \/ Len(t) >= 5 /\ sign \in {"+", "-"}
Year(sign, t) == IF sign = "-" THEN 0 - Num(t) ELSE Num(t)

GoodDate(t) ==
  IF t = <<>> THEN None ELSE
  LET sign == IF Head(t) \in {"+", "-"} THEN Head(t) ELSE ""
      body == IF sign = "" THEN t ELSE Tail(t)
      p == Split(body, "-")
  IN IF sign = "" /\ Len(p) = 1 /\ AllDigits(p[1]) /\ Len(p[1]) = 8
     THEN Date(Num(SubSeq(p[1], 1, 4)), Num(SubSeq(p[1], 5, 6)), Num(SubSeq(p[1], 7, 8)))
     ELSE IF ~YearOk(sign, p[1]) \/ Len(p) > 3 THEN None
     ELSE IF \E i \in 2 .. Len(p) : ~(AllDigits(p[i]) /\ Len(p[i]) = 2) THEN None
     ELSE Date(Year(sign, p[1]),
               IF Len(p) >= 2 THEN Num(p[2]) ELSE 1,
               IF Len(p) = 3 THEN Num(p[3]) ELSE 1)

\* The range of a field: documented values are accepted, the values between that
\* and what ICU4X accepts are left open, and everything above is refused.
Field(n, documented, open) == IF n <= documented THEN "ok" ELSE IF n <= open THEN "any" ELSE "err"

GoodTime(t0) ==
  LET zone == Before(t0, {"+", "-", "Z"})          \* time zones are ignored
      tz == SubSeq(t0, Len(zone) + 1, Len(t0))
      zoneOk == \/ tz = <<>> \/ tz = <<"Z">>
                \/ /\ Len(tz) \in {5, 6} /\ Head(tz) \in {"+", "-"}
                   /\ LET z == Tail(tz) IN
                      \/ Len(z) = 4 /\ AllDigits(z)
                      \/ Len(z) = 5 /\ z[3] = ":" /\ AllDigits(SubSeq(z, 1, 2))
                                    /\ AllDigits(SubSeq(z, 4, 5))
      dot == Split(zone, ".")
      hms == dot[1]
      p == Split(hms, ":")
      ext == \A i \in DOMAIN p : Len(p[i]) = 2 /\ AllDigits(p[i])
      basic == Len(p) = 1 /\ AllDigits(hms) /\ Len(hms) \in {2, 4, 6}
      f == IF basic THEN [i \in 1 .. Len(hms) \div 2 |-> Num(SubSeq(hms, 2 * i - 1, 2 * i))]
           ELSE [i \in DOMAIN p |-> Num(p[i])]
      nanoOk == \/ Len(dot) = 1
                \/ Len(dot) = 2 /\ AllDigits(dot[2]) /\ Len(dot[2]) <= 9
      n == Len(f)
  IN IF ~zoneOk THEN None
     ELSE IF zone = <<>> THEN [st |-> "time", h |-> 0, mi |-> 0, s |-> 0, n |-> 0]
     ELSE IF ~nanoOk \/ ~(basic \/ ext) THEN None
     ELSE IF n > 3 \/ (Len(dot) = 2 /\ n # 3) THEN None
     ELSE LET h == f[1]
              mi == IF n >= 2 THEN f[2] ELSE 0
              s == IF n = 3 THEN f[3] ELSE 0
              q == {Field(h, 24, 24), Field(mi, 59, 60), Field(s, 60, 61)}
          IN IF "err" \in q THEN [st |-> "err"]
             ELSE IF "any" \in q THEN None
             ELSE [st |-> "time", h |-> h, mi |-> mi, s |-> s,
                   n |-> IF Len(dot) = 2 THEN Num(dot[2]) ELSE 0]

ParseDate(t) == LET g == GoodDate(t) IN IF g.st = "any" /\ BadDate(t) THEN Bad ELSE g
ParseTime(t) == LET g == GoodTime(t) IN IF g.st = "any" /\ BadTime(t) THEN Bad ELSE g

Key(y, m, d, h, mi, s, n) ==
  ToString(y) \o "," \o ToString(m) \o "," \o ToString(d) \o "," \o ToString(h) \o ","
  \o ToString(mi) \o "," \o ToString(s) \o "," \o ToString(n)

IsoOutcome(t) ==
  LET p == Split(t, "T") IN
  IF Len(p) = 1 THEN
    LET d == ParseDate(t) IN
    IF d.st = "date" THEN [st |-> "date", key |-> Key(d.y, d.m, d.d, 0, 0, 0, 0)]
    ELSE d
  ELSE IF Len(p) # 2 THEN None
  ELSE LET tm == ParseTime(p[2]) IN
    IF p[1] = <<>> THEN
      IF tm.st = "time" THEN [st |-> "time", key |-> Key(1970, 1, 1, tm.h, tm.mi, tm.s, tm.n)]
      ELSE tm
    ELSE LET d == ParseDate(p[1]) IN
      IF d.st = "err" \/ tm.st = "err" THEN Bad
      ELSE IF d.st = "any" \/ tm.st = "any" THEN None
      ELSE [st |-> "dt", key |-> Key(d.y, d.m, d.d, tm.h, tm.mi, tm.s, tm.n)]
=============================================================================
