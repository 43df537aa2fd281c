------------------------------- MODULE RvmAlu --------------------------------
(* The arithmetic and logic of the virtual machine on words of W bits (lowest bit   *)
(* first), generic in W: checked against plain integers for small W (RvmAluMC),     *)
(* used as oracle for W = 64.                                                       *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT W

Ix == [k \in 1..W |-> k]
Zero == [k \in 1..W |-> 0]
One == [k \in 1..W |-> IF k = 1 THEN 1 ELSE 0]
IsZero(a) == \A k \in 1..W : a[k] = 0
Neg(a) == a[W] = 1
Inv(a) == [k \in 1..W |-> 1 - a[k]]
(* sum with carry in: <<word, carry out>> *)
AddC(a, b, c) == FoldLeft(LAMBDA acc, k : LET s == a[k] + b[k] + acc[2] IN <<Append(acc[1], s % 2), s \div 2>>, <<<<>>, c>>, Ix)
(* difference with borrow in: <<word, borrow out>> *)
SubB(a, b, c) == FoldLeft(LAMBDA acc, k : LET s == a[k] - b[k] - acc[2] + 2 IN <<Append(acc[1], s % 2), IF s < 2 THEN 1 ELSE 0>>, <<<<>>, c>>, Ix)
Less(a, b) == SubB(a, b, 0)[2] = 1
Minus(a) == AddC(Inv(a), One, 0)[1]
Shl(a, n) == [k \in 1..W |-> IF k - n >= 1 THEN a[k - n] ELSE 0]
Shr(a, n) == [k \in 1..W |-> IF k + n <= W THEN a[k + n] ELSE 0]
Sar(a, n) == [k \in 1..W |-> IF k + n <= W THEN a[k + n] ELSE a[W]]
Rot(a, n) == [k \in 1..W |-> a[((k - 1 + n) % W) + 1]]
(* product: <<low word, does it not fit>> *)
Mul(a, b) == FoldLeft(LAMBDA acc, k : IF b[k] = 0 THEN acc
                        ELSE LET s == AddC(acc[1], Shl(a, k - 1), 0)
                             IN  <<s[1], acc[2] \/ s[2] = 1 \/ \E j \in (W - k + 2)..W : a[j] = 1>>, <<Zero, FALSE>>, Ix)
(* quotient and remainder, unsigned, b not zero; from the highest bit down *)
DivMod(a, b) == FoldLeft(LAMBDA acc, k : LET bit == W + 1 - k
                                             top == acc[2][W]
                                             r == [Shl(acc[2], 1) EXCEPT ![1] = a[bit]]
                                         IN  IF top = 1 \/ ~Less(r, b) THEN <<[acc[1] EXCEPT ![bit] = 1], SubB(r, b, 0)[1]>> ELSE <<acc[1], r>>,
                         <<Zero, Zero>>, Ix)
Abs(a) == IF Neg(a) THEN Minus(a) ELSE a
SDiv(a, b) == LET q == DivMod(Abs(a), Abs(b))[1] IN IF Neg(a) # Neg(b) THEN Minus(q) ELSE q
Lead(a) == FoldLeft(LAMBDA acc, k : IF acc[2] \/ a[W + 1 - k] = 1 THEN <<acc[1], TRUE>> ELSE <<acc[1] + 1, FALSE>>, <<0, FALSE>>, Ix)[1]
RECURSIVE Word(_)
Bit(n, k) == (n \div (IF k = 0 THEN 1 ELSE 2^k)) % 2
Word(n) == [k \in 1..W |-> IF k <= 30 THEN Bit(n, k - 1) ELSE 0]       \* of a natural below 2^30
(* the value of a word, if below 2^30, else 2^30 *)
Small(a) == IF \E k \in 31..W : a[k] = 1 THEN 1073741824 ELSE FoldLeft(LAMBDA acc, k : acc * 2 + a[W + 1 - k], 0, Ix)

(* flags: a set of letters *)
Fl(z, n, c, v) == (IF z THEN {"Z"} ELSE {}) \cup (IF n THEN {"N"} ELSE {}) \cup (IF c THEN {"C"} ELSE {}) \cup (IF v THEN {"V"} ELSE {})
ZN(a) == Fl(IsZero(a), Neg(a), FALSE, FALSE)
AddFl(a, b, s, f) == Fl(IsZero(s[1]), Neg(s[1]), s[2] = 1, Neg(a) = Neg(b) /\ Neg(s[1]) # Neg(a)) \cup (f \cap {"E"})
SubFl(a, b, s, f, c) == Fl(IsZero(s[1]), Neg(s[1]), c, Neg(a) # Neg(b) /\ Neg(s[1]) # Neg(a)) \cup (f \cap {"E"})

(* As built, the overflow flag of a subtraction says the opposite where the signs of  *)
(* the operands differ (a test of the suite expects so for CMP): known finding.      *)
Subtracts == {"SUBS", "SBC", "CMP"}
AsBuilt(op, x, y, z, f) == LET a == IF op = "CMP" THEN x ELSE y
                               b == IF op = "CMP" THEN y ELSE z
                           IN  IF op \notin Subtracts \/ Neg(a) = Neg(b) THEN f
                               ELSE IF "V" \in f THEN f \ {"V"} ELSE f \cup {"V"}
(* One instruction on the values x, y, z of its three operands with flags f:         *)
(* w: the word for the first operand (or <<>>: not written), f: flags, err.          *)
Wr(w, f) == [w |-> w, f |-> f, err |-> 0]
Set(w) == [w |-> w, f |-> ZN(w), err |-> 0]
Flg(f) == [w |-> <<>>, f |-> f, err |-> 0]
DivZero(f) == [w |-> <<>>, f |-> f, err |-> 1]
Cin(f) == IF "C" \in f THEN 1 ELSE 0
Defined(op, x, y, z, f) == op \in {"LSL", "LSR", "LSRS", "ASR"} => Small(z) < W       \* wider shifts are not defined

Exec(op, x, y, z, f) ==
  CASE op = "MOV"  -> Wr(y, f)
    [] op = "MOVS" -> Set(y)
    [] op = "INC"  -> Wr(AddC(x, One, 0)[1], f)
    [] op = "DEC"  -> Wr(SubB(x, One, 0)[1], f)
    [] op = "ADD"  -> Wr(AddC(y, z, 0)[1], f)
    [] op = "ADDS" -> LET s == AddC(y, z, 0) IN Wr(s[1], AddFl(y, z, s, f))
    [] op = "ADC"  -> LET s == AddC(y, z, Cin(f)) IN Wr(s[1], AddFl(y, z, s, f))
    [] op = "SUB"  -> Wr(SubB(y, z, 0)[1], f)
    [] op = "SUBS" -> LET s == SubB(y, z, 0) IN Wr(s[1], SubFl(y, z, s, f, s[2] = 0))        \* carry: no borrow
    [] op = "SBC"  -> LET s == SubB(y, z, 1 - Cin(f)) IN Wr(s[1], SubFl(y, z, s, f, s[2] = 0))
    [] op = "CMP"  -> LET s == SubB(x, y, 0) IN Flg(SubFl(x, y, s, f, s[2] = 1))             \* carry: below
    [] op = "CMN"  -> LET s == AddC(x, y, 0) IN Flg(AddFl(x, y, s, f))
    [] op = "AND"  -> Set([k \in 1..W |-> y[k] * z[k]])
    [] op = "ORR"  -> Set([k \in 1..W |-> IF y[k] + z[k] > 0 THEN 1 ELSE 0])
    [] op = "XOR"  -> Set([k \in 1..W |-> (y[k] + z[k]) % 2])
    [] op = "BIC"  -> Set([k \in 1..W |-> y[k] * (1 - z[k])])
    [] op = "NOT"  -> Set(Inv(y))
    [] op = "TST"  -> Flg(ZN([k \in 1..W |-> x[k] * y[k]]))
    [] op = "TEQ"  -> Flg(ZN([k \in 1..W |-> (y[k] + z[k]) % 2]))
    [] op = "CLZ"  -> Wr(Word(Lead(y)), f)
    [] op = "LSL"  -> Set(Shl(y, Small(z)))
    [] op = "LSR"  -> Set(Shr(y, Small(z)))
    [] op = "LSRS" -> Set(Sar(y, Small(z)))
    [] op = "ASR"  -> Set(Sar(y, Small(z)))
    [] op = "ROR"  -> LET w == Rot(y, Small(z) % W) IN Wr(w, ZN(w) \cup (IF Neg(w) THEN {"C"} ELSE {}))    \* the last bit rotated out
    [] op = "MUL"  -> Wr(Mul(y, z)[1], f)
    [] op = "MLS"  -> Set(Mul(y, z)[1])
    [] op = "MULS" -> LET p == Mul(y, z) IN Wr(p[1], ZN(p[1]) \cup (IF p[2] THEN {"C"} ELSE {}))
    [] op = "DIV"  -> IF IsZero(z) THEN DivZero(f) ELSE Wr(DivMod(y, z)[1], f)
    [] op = "DIVS" -> IF IsZero(z) THEN DivZero(f) ELSE Set(DivMod(y, z)[1])
    [] op = "MOD"  -> IF IsZero(z) THEN DivZero(f) ELSE Wr(DivMod(y, z)[2], f)
    [] op = "MODS" -> IF IsZero(z) THEN DivZero(f) ELSE Set(DivMod(y, z)[2])
    [] op = "DVS"  -> IF IsZero(z) THEN DivZero(f) ELSE Set(SDiv(y, z))
=============================================================================
