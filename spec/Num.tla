------------------------------- MODULE Num -------------------------------
(* Exact arithmetic on numbers written as TLA+ strings.  TLC integers have *)
(* 32 bits, the counters of the cache have 64, so integers beyond nine     *)
(* digits and decimals are added digit by digit.                           *)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in DigitChars |->
               CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9]
DigitChar == [n \in 0..9 |-> ToString(n)]

Digits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitChars
Neg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Mag(s) == IF Neg(s) THEN SubSeq(s, 2, Len(s)) ELSE s

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

(* comparison of magnitudes without leading zeros *)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE LET x == DigitVal[Ch(a, i)]  y == DigitVal[Ch(b, i)]
       IN IF x = y THEN LexLeq(a, b, i + 1) ELSE x < y
MagLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b, 1)

(* digit-wise addition and subtraction of magnitudes, i counts from the right *)
D(s, i) == IF i > Len(s) THEN 0 ELSE DigitVal[Ch(s, Len(s) + 1 - i)]
RECURSIVE AddMagR(_, _, _, _)
AddMagR(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN IF carry = 0 THEN "" ELSE DigitChar[carry]
  ELSE LET t == D(a, i) + D(b, i) + carry
       IN AddMagR(a, b, i + 1, t \div 10) \o DigitChar[t % 10]
RECURSIVE SubMagR(_, _, _, _)
SubMagR(a, b, i, borrow) ==      \* a >= b
  IF i > Len(a) THEN ""
  ELSE LET t == D(a, i) - D(b, i) - borrow
       IN SubMagR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0) \o DigitChar[(t + 10) % 10]

SignMag(neg, m) == LET z == StripZeros(m) IN IF neg /\ z # "0" THEN "-" \o z ELSE z

(* sum of two integers in canonical form, canonical *)
AddInt(a, b) ==
  LET ma == Mag(a)  mb == Mag(b) IN
  IF Neg(a) = Neg(b) THEN SignMag(Neg(a), AddMagR(ma, mb, 1, 0))
  ELSE IF MagLeq(mb, ma) THEN SignMag(Neg(a), SubMagR(ma, mb, 1, 0))
  ELSE SignMag(Neg(b), SubMagR(mb, ma, 1, 0))
NegInt(a) == IF a = "0" THEN a ELSE IF Neg(a) THEN Mag(a) ELSE "-" \o a

MaxInt64 == "9223372036854775807"
MinMag64 == "9223372036854775808"

(* the integers a counter accepts: canonical spelling, 64 bits signed *)
InRange64(s) == MagLeq(Mag(s), IF Neg(s) THEN MinMag64 ELSE MaxInt64)
Canonical(s) == /\ Digits(Mag(s))
                /\ Mag(s) = StripZeros(Mag(s))
                /\ ~(Neg(s) /\ Mag(s) = "0")
IsInt64(s) == Len(s) \in 1..20 /\ Canonical(s) /\ InRange64(s)

(* small integers to and from TLC integers *)
RECURSIVE ToIntR(_, _)
ToIntR(s, i) == IF i = 0 THEN 0 ELSE 10 * ToIntR(s, i - 1) + DigitVal[Ch(s, i)]
ToInt(s) == IF Neg(s) THEN 0 - ToIntR(Mag(s), Len(s) - 1) ELSE ToIntR(s, Len(s))

(* ---------------------------------------------------------------------- *)
(* decimals: [ok, neg, m, f] is (-1)^neg * m * 10^(-f), m a digit string    *)
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in c THEN i ELSE IndexOf(s, c, i + 1)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)

BadDec == [ok |-> FALSE, neg |-> FALSE, m |-> "0", f |-> 0]
Unsign(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
OptDigits(s) == Len(s) = 0 \/ Digits(s)
ParseMant(s) ==   \* [+-] digits [. digits], digits missing on one side at most
  LET m == Unsign(s)
      p == IndexOf(m, {"."}, 1)
      ip == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      fp == IF p = 0 THEN "" ELSE SubSeq(m, p + 1, Len(m))
  IN IF OptDigits(ip) /\ OptDigits(fp) /\ Len(ip \o fp) > 0
     THEN [ok |-> TRUE, neg |-> Neg(s), m |-> StripZeros(ip \o fp), f |-> Len(fp)]
     ELSE BadDec
ParseDec(s) ==
  LET e == IndexOf(s, {"e", "E"}, 1) IN
  IF e = 0 THEN ParseMant(s)
  ELSE LET d == ParseMant(SubSeq(s, 1, e - 1))
           x == SubSeq(s, e + 1, Len(s))
       IN IF ~d.ok \/ ~Digits(Unsign(x)) \/ Len(x) > 4 THEN BadDec
          ELSE LET n == IF Neg(x) THEN 0 - ToInt(Unsign(x)) ELSE ToInt(Unsign(x)) IN
               IF d.f - n >= 0 THEN [d EXCEPT !.f = d.f - n]
               ELSE [d EXCEPT !.f = 0, !.m = StripZeros(d.m \o Zeros(n - d.f))]
IsNumber(s) == ParseDec(s).ok

(* plain decimal notation without superfluous zeros *)
RECURSIVE DropTrail(_, _)
DropTrail(m, f) == IF f > 0 /\ Ch(m, Len(m)) = "0" THEN DropTrail(SubSeq(m, 1, Len(m) - 1), f - 1)
                   ELSE <<m, f>>
ShowDec(neg, m0, f0) ==
  LET m1 == IF Len(m0) <= f0 THEN Zeros(f0 + 1 - Len(m0)) \o m0 ELSE m0
      mf == DropTrail(m1, f0)
      m == mf[1]  f == mf[2]
      ip == StripZeros(SubSeq(m, 1, Len(m) - f))
      body == IF f = 0 THEN ip ELSE ip \o "." \o SubSeq(m, Len(m) - f + 1, Len(m))
  IN IF neg /\ body # "0" THEN "-" \o body ELSE body
AddDec(a, b) ==    \* two parsed decimals, result in plain notation
  LET f == IF a.f > b.f THEN a.f ELSE b.f
      ia == SignMag(a.neg, a.m \o Zeros(f - a.f))
      ib == SignMag(b.neg, b.m \o Zeros(f - b.f))
      s == AddInt(ia, ib)
  IN ShowDec(Neg(s), Mag(s), f)
AddNumber(s, t) == AddDec(ParseDec(s), ParseDec(t))
==========================================================================
