------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size (TLC's integers have 32 bits): sequences of *)
(* digits in base 1000, least significant first, the last one not zero;    *)
(* zero is the empty sequence.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Base == 1000
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

(* Digits of the number whose positions hold the natural numbers in p.     *)
RECURSIVE Carry(_, _, _)
Carry(p, i, c) ==
  IF i > Len(p) THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(p, i, c \div Base))
  ELSE LET v == TLCEval(p[i] + c) IN <<v % Base>> \o Carry(p, i + 1, v \div Base)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Larger(x, y) == IF x > y THEN x ELSE y
BigAdd(a, b) ==
  TLCEval(Carry([i \in 1 .. Larger(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)], 1, 0))
RECURSIVE Convolve(_, _, _, _)
Convolve(a, b, k, i) ==           \* sum of a[i'] * b[k + 1 - i'], i' >= i
  IF i > k \/ i > Len(a) THEN 0 ELSE a[i] * Digit(b, k + 1 - i) + Convolve(a, b, k, i + 1)
BigMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE TLCEval(Trim(Carry([k \in 1 .. Len(a) + Len(b) |-> Convolve(a, b, k, 1)], 1, 0)))
BigOf(m) == TLCEval(Carry(<<>>, 1, m))

(* a < b                                                                   *)
BigLess(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1 .. Len(a) : a[i] < b[i] /\ \A j \in i + 1 .. Len(a) : a[j] = b[j]

(* Pascal's triangle up to row BigRows: row m + 1 for m places.            *)
BigRows == 101
BigPascal ==
  FoldLeft(LAMBDA acc, m :
             Append(acc, TLCEval([j \in 1 .. m + 1 |->
               IF j = 1 \/ j = m + 1 THEN <<1>> ELSE BigAdd(acc[m][j - 1], acc[m][j])])),
           << << <<1>> >> >>, [m \in 1 .. BigRows |-> m])
=============================================================================
