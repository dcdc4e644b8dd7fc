-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1 (FIPS 180-4) of sequences of bytes.  32 bit words are pairs of 16   *)
(* bit halves, most significant first.                                       *)
EXTENDS Integers, Sequences, Bitwise
H == 65536
Xr(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
An(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Ro(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Neg(a) == <<(H - 1) - a[1], (H - 1) - a[2]>>
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div H)) % H, l % H>>
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
\* to the left by n
Rol(a, n) == IF n >= 16 THEN (IF n = 16 THEN <<a[2], a[1]>> ELSE LET b == <<a[2], a[1]>> p == Pow(n - 16) c == Pow(32 - n) IN <<((b[1] * p) % H) + (b[2] \div c), ((b[2] * p) % H) + (b[1] \div c)>>)
             ELSE LET p == Pow(n) c == Pow(16 - n) IN <<((a[1] * p) % H) + (a[2] \div c), ((a[2] * p) % H) + (a[1] \div c)>>
\* 0x80, zeros, length in bits over 8 bytes
Pad(m) == LET z == (119 - (Len(m) % 64)) % 64 b == 8 * Len(m) IN
    m \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0, b \div 16777216, (b \div H) % 256, (b \div 256) % 256, b % 256>>
Word(m, i) == <<(m[(4 * i) + 1] * 256) + m[(4 * i) + 2], (m[(4 * i) + 3] * 256) + m[(4 * i) + 4]>>
RECURSIVE Expand(_)
Expand(w) == IF Len(w) = 80 THEN w ELSE LET n == Len(w) IN
    Expand(Append(w, Rol(Xr(Xr(w[n - 2], w[n - 7]), Xr(w[n - 13], w[n - 15])), 1)))
K(t) == CASE t < 20 -> <<23170, 31129>> [] t < 40 -> <<28377, 60321>> [] t < 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
F(t, b, c, d) == CASE t < 20 -> Ro(An(b, c), An(Neg(b), d)) [] t >= 40 /\ t < 60 -> Ro(An(b, c), Ro(An(b, d), An(c, d))) [] OTHER -> Xr(b, Xr(c, d))
RECURSIVE Rounds(_, _, _)
Rounds(s, w, t) == IF t = 80 THEN s ELSE
    Rounds(<<Add(Add(Rol(s[1], 5), F(t, s[2], s[3], s[4])), Add(s[5], Add(K(t), w[t + 1]))), s[1], Rol(s[2], 30), s[3], s[4]>>, w, t + 1)
Block(s, m, k) == LET r == Rounds(s, Expand([i \in 1..16 |-> Word(m, (16 * k) + i - 1)]), 0) IN [i \in 1..5 |-> Add(s[i], r[i])]
RECURSIVE Blocks(_, _, _)
Blocks(s, m, k) == IF 64 * k >= Len(m) THEN s ELSE Blocks(Block(s, m, k), m, k + 1)
Init_ == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
\* digits 0..15
Digits(h) == [n \in 1..40 |-> LET w == h[((n - 1) \div 8) + 1][(((n - 1) % 8) \div 4) + 1] IN (w \div Pow(12 - (4 * ((n - 1) % 4)))) % 16]
Sha(m) == Digits(Blocks(Init_, Pad(m), 0))
=============================================================================
