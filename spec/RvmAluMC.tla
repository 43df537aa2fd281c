------------------------------ MODULE RvmAluMC -------------------------------
(* RvmAlu against the integers, for all words of W bits: sums, products, quotients   *)
(* and flags mean what arithmetic says, and chains through the carry are exact.      *)
EXTENDS RvmAlu, TLC
M == 2^W
Words == 0..(M - 1)
S(n) == IF n >= M \div 2 THEN n - M ELSE n        \* signed value
V(w) == FoldLeft(LAMBDA acc, k : acc * 2 + w[W + 1 - k], 0, Ix)
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a \in Words /\ b \in Words /\ c \in {0, 1}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == Word(a)
B == Word(b)
F == IF c = 1 THEN {"C"} ELSE {}
E(op) == Exec(op, A, B, B, F)
X(op) == Exec(op, Zero, A, B, F)
Fits(n) == -(M \div 2) <= n /\ n < M \div 2
Sum(op, n, sn) == V(X(op).w) = n % M /\ ("C" \in X(op).f <=> n >= M) /\ ("V" \in X(op).f <=> ~Fits(sn))
                  /\ ("Z" \in X(op).f <=> n % M = 0) /\ ("N" \in X(op).f <=> S(n % M) < 0)
Dif(op, n, sn) == V(X(op).w) = n % M /\ ("C" \in X(op).f <=> n >= 0) /\ ("V" \in X(op).f <=> ~Fits(sn))
                  /\ ("Z" \in X(op).f <=> n % M = 0) /\ ("N" \in X(op).f <=> S(n % M) < 0)
Adding == Sum("ADDS", a + b, S(a) + S(b)) /\ Sum("ADC", a + b + c, S(a) + S(b) + c) /\ V(X("ADD").w) = (a + b) % M
Subtracting == Dif("SUBS", a - b, S(a) - S(b)) /\ Dif("SBC", a - b - (1 - c), S(a) - S(b) - (1 - c)) /\ V(X("SUB").w) = (a - b) % M
Comparing == LET f == Exec("CMP", A, B, Zero, F).f
             IN  ("Z" \in f <=> a = b) /\ ("C" \in f <=> a < b) /\ ((("N" \in f) # ("V" \in f)) <=> S(a) < S(b))
Multiplying == V(X("MUL").w) = (a * b) % M /\ ("C" \in X("MULS").f <=> a * b >= M) /\ V(X("MLS").w) = (S(a) * S(b)) % M
TDiv(p, q) == LET r == (IF p < 0 THEN -p ELSE p) \div (IF q < 0 THEN -q ELSE q) IN IF (p < 0) # (q < 0) THEN -r ELSE r
Dividing == IF b = 0 THEN \A op \in {"DIV", "DIVS", "MOD", "MODS", "DVS"} : X(op).err = 1 /\ X(op).w = <<>> /\ X(op).f = F
            ELSE V(X("DIVS").w) = a \div b /\ V(X("MODS").w) = a % b /\ V(X("DVS").w) = TDiv(S(a), S(b)) % M
Shifting == b < W => V(X("LSL").w) = (a * 2^b) % M /\ V(X("LSR").w) = a \div 2^b /\ V(X("ASR").w) = (S(a) \div 2^b) % M
                     /\ V(X("ROR").w) = (a \div 2^b + (a % 2^b) * 2^(W - b)) % M
Counting == LET n == V(X("CLZ").w) IN (a = 0 /\ n = W % M) \/ (a > 0 /\ 2^(W - 1 - n) <= a /\ a < 2^(W - n))
Bits == V(X("AND").w) + V(X("ORR").w) = a + b /\ V(X("XOR").w) = V(X("ORR").w) - V(X("AND").w) /\ V(X("NOT").w) = M - 1 - a /\ V(X("BIC").w) = a - V(X("AND").w)
(* two-word sums and differences through the carry: the pair (a, b) with itself swapped *)
Chain == LET lo == Exec("ADDS", Zero, A, B, {})
             hi == Exec("ADC", Zero, B, A, lo.f)
             slo == Exec("SUBS", Zero, A, B, {})
             shi == Exec("SBC", Zero, B, A, slo.f)
             p == b * M + a
             q == a * M + b
         IN  /\ V(hi.w) * M + V(lo.w) = (p + q) % (M * M) /\ ("C" \in hi.f <=> p + q >= M * M)
             /\ V(shi.w) * M + V(slo.w) = (p - q) % (M * M) /\ ("C" \in shi.f <=> p >= q)
=============================================================================
