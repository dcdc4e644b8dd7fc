------------------------------- MODULE HashMC -------------------------------
(* Known answers of the standard, padding, and the representation of lists   *)
(* of numbers.                                                               *)
EXTENDS Hash
CONSTANTS N
V == {0, 1, 9, 10, 12, 101, -1, -10}
VARIABLES n, v
vars == <<n, v>>
Init == n \in 0..N /\ v \in UNION {[1..k -> V] : k \in 0..2}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == [i \in 1..n |-> 97 + (i % 26)]
Padded == LET p == Pad(M) IN Len(p) % 64 = 0 /\ Len(p) - n \in 9..72 /\ SubSeq(p, 1, n) = M
Abc == <<97, 98, 99>>
Long_ == <<97,98,99,100,98,99,100,101,99,100,101,102,100,101,102,103,101,102,103,104,102,103,104,105,103,104,105,106,104,105,106,107,105,106,107,108,106,107,108,109,107,108,109,110,108,109,110,111,109,110,111,112,110,111,112,113>>
Known == n = 0 =>
    /\ Sha(<<>>) = <<13,10,3,9,10,3,14,14,5,14,6,11,4,11,0,13,3,2,5,5,11,15,14,15,9,5,6,0,1,8,9,0,10,15,13,8,0,7,0,9>>
    /\ Sha(Abc) = <<10,9,9,9,3,14,3,6,4,7,0,6,8,1,6,10,11,10,3,14,2,5,7,1,7,8,5,0,12,2,6,12,9,12,13,0,13,8,9,13>>
    /\ Sha(Long_) = <<8,4,9,8,3,14,4,4,1,12,3,11,13,2,6,14,11,10,10,14,4,10,10,1,15,9,5,1,2,9,14,5,14,5,4,6,7,0,15,1>>
\* documented: hash(1,2,3), hash(1.0,2.0,3.0)
Documented == n = 1 =>
    /\ Sha(Text(<<1, 2, 3>>, 105)) = <<5,7,0,3,3,1,10,11,9,6,5,7,2,1,10,10,14,8,10,8,11,3,12,6,2,8,12,10,14,5,7,10,2,1,10,3,7,5,6,0>>
    /\ Sha(Text(<<1, 2, 3>>, 100)) = <<9,12,4,5,0,1,4,15,7,12,7,9,4,3,12,11,7,8,6,0,15,3,13,11,4,11,8,8,5,15,11,4,4,11,5,1,0,14,12,8>>
Words == \A a \in {<<0, 1>>, <<65535, 0>>, <<4660, 22136>>} : \A k \in 1..31 : Rol(Rol(a, k), 32 - k) = a /\ Add(a, Neg(a)) = <<65535, 65535>>
\* different lists have different texts
Injective == \A u \in UNION {[1..k -> V] : k \in 0..2} : Text(u, 105) = Text(v, 105) => u = v
=============================================================================
