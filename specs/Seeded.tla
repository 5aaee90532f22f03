------------------------------ MODULE Seeded ------------------------------
(* Numbers derived from a seed (a pair of residues), for specifications in which
   a seed denotes a whole environment and history. *)
EXTENDS MBT
SeedOf(n) == <<(n * 7919 + 13) % 65521, (n \div 7 + (n * 104) + 31) % 65519>>
K(t, i) == CHOOSE r \in {<<(((s[1] * 31337) % 65521) + (s[2] % 1009) * 17 + i * 4099) % 65521, (((s[2] * 30011) % 65519) + (s[1] % 2003) * 13 + i * 7919 + 5) % 65519>> : s \in {t}} : TRUE
R(s, n) == (((s[1] * 7) + s[2] * 3 + (s[1] \div 16)) % 61169) % n
At(s, q) == q[R(s, Len(q)) + 1]
\* true in x of 12 cases
Ch(s, x) == R(s, 12) < x
===========================================================================
