-------------------------------- MODULE Hash --------------------------------
(* The text that is hashed, for numbers: for each, the letter of its type    *)
(* and its decimal digits.                                                   *)
EXTENDS Sha1
RECURSIVE Dec(_)
Dec(x) == IF x < 0 THEN <<45>> \o Dec(-x) ELSE IF x < 10 THEN <<48 + x>> ELSE Dec(x \div 10) \o <<48 + (x % 10)>>
RECURSIVE Text(_, _)
Text(v, t) == IF v = <<>> THEN <<>> ELSE <<t>> \o Dec(v[1]) \o Text(Tail(v), t)
=============================================================================
