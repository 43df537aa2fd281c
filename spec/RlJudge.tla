------------------------------- MODULE RlJudge -------------------------------
(* Decides recorded calls of the character (L07) and string (L08) helpers.            *)
EXTENDS Utf, RlStr, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT G
VARIABLES i, g
(* encode n characters from c.from into c.size bytes each; enc 0 UTF-8, 2 UTF-16        *)
Enc(e, w) == IF e = 0 THEN Utf8Enc(w) ELSE Utf16Enc(w)
Fit(b, n) == IF Len(b) <= n THEN b ELSE <<>>
EncOk(c) == \A k \in 1..Len(c.obs) : c.obs[k] = Fit(Enc(c.enc, c.from + k - 1), c.size)
(* and back: the character and the bytes used                                          *)
BackOk(c) == \A k \in 1..Len(c.obs) : LET w == c.from + k - 1
                                          b == Enc(c.enc, w)
                                      IN  c.obs[k] = IF b = <<>> THEN <<-1, 0>> ELSE <<w, Len(b)>>
Dec(e, b) == IF b = <<>> THEN <<0, 0>> ELSE CharAt(e, b, 1)
DecOk(c) == Len(c.obs) = Len(c.q) /\ \A k \in 1..Len(c.q) : c.obs[k] = Dec(c.enc, c.q[k])
CaseOk(c) == \A k \in 1..Len(c.obs) :
               LET w == c.from + k - 1
               IN  c.obs[k] = <<Partner(w), IF In(w, 65, 90) THEN w + 32 ELSE w, IF In(w, 97, 122) THEN w - 32 ELSE w>>

(* helpers on texts a, b (without zeros), size n                                      *)
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a = <<>> /\ b = <<>> -> 0
               [] a = <<>> -> -1
               [] b = <<>> -> 1
               [] a[1] < b[1] -> -1
               [] a[1] > b[1] -> 1
               [] OTHER -> Cmp(Tail(a), Tail(b))
Cut(a, n) == SubSeq(a, 1, IF n < Len(a) THEN n ELSE Len(a))
At0(a, b) == {k \in 0..Len(a) - Len(b) : SubSeq(a, k + 1, k + Len(b)) = b}
First(S) == IF S = {} THEN -1 ELSE Least(S)
RECURSIVE Trim(_, _)
Trim(a, b) == IF a # <<>> /\ Contains(b, a[Len(a)]) THEN Trim(Front(a), b) ELSE a
Fill(t, n) == IF Len(t) >= n THEN SubSeq(t, 1, n) ELSE t \o [k \in 1..n - Len(t) |-> 0]
(* numbers: blanks, sign, prefix, digits                                              *)
Blank(x) == x = 32 \/ In(x, 9, 13)
Dig(x) == CASE In(x, 48, 57) -> x - 48 [] In(x, 97, 122) -> x - 87 [] In(x, 65, 90) -> x - 55 [] OTHER -> 99
RECURSIVE SkipB(_, _), Run(_, _, _, _)
SkipB(t, p) == IF p <= Len(t) /\ Blank(t[p]) THEN SkipB(t, p + 1) ELSE p
Run(t, p, base, v) == IF p <= Len(t) /\ Dig(t[p]) < base THEN Run(t, p + 1, base, v * base + Dig(t[p])) ELSE <<p, v>>
Num(t, base) ==
  LET p == SkipB(t, 1)
      neg == p <= Len(t) /\ t[p] = 45
      q == IF p <= Len(t) /\ t[p] \in {43, 45} THEN p + 1 ELSE p
      hex == base \in {0, 16} /\ q + 2 <= Len(t) /\ t[q] = 48 /\ t[q + 1] \in {88, 120} /\ Dig(t[q + 2]) < 16
      b == IF base # 0 THEN base ELSE IF hex THEN 16 ELSE IF q <= Len(t) /\ t[q] = 48 THEN 8 ELSE 10
      from == IF hex THEN q + 2 ELSE q
      r == Run(t, from, b, 0)
  IN  IF r[1] = from THEN <<0, 0>> ELSE <<IF neg THEN -r[2] ELSE r[2], r[1] - 1>>
(* a decimal fraction in 64ths: the generator writes such numbers only                   *)
Flt(t) ==
  LET p == SkipB(t, 1)
      neg == p <= Len(t) /\ t[p] = 45
      q == IF p <= Len(t) /\ t[p] \in {43, 45} THEN p + 1 ELSE p
      w == Run(t, q, 10, 0)
      dot == w[1] <= Len(t) /\ t[w[1]] = 46
      f == IF dot THEN Run(t, w[1] + 1, 10, 0) ELSE <<w[1], 0>>
      nd == IF dot THEN f[1] - w[1] - 1 ELSE 0
      v == w[2] * 64 + (f[2] * 64) \div 10 ^ nd
  IN  IF w[1] = q /\ nd = 0 THEN <<0, 0>> ELSE <<IF neg THEN -v ELSE v, (IF dot THEN f[1] ELSE w[1]) - 1>>
B(x) == IF x THEN 1 ELSE 0
Want(c) ==
  CASE c.f = "cmp" -> Cmp(c.a, c.b)
    [] c.f = "ncmp" -> Cmp(Cut(c.a, c.n), Cut(c.b, c.n))
    [] c.f = "eqn" -> B(Len(c.a) = c.n /\ Cut(c.b, c.n) = c.a)
    [] c.f = "len" -> Len(Text(c.a))
    [] c.f = "str" -> First(At0(c.a, c.b))
    [] c.f = "chr" -> IF c.n = 0 THEN Len(c.a) ELSE First(At0(c.a, <<c.n>>))
    [] c.f = "trim" -> Trim(c.a, c.b)
    [] c.f = "dup" -> c.a
    [] c.f = "ndup" -> Fill(Sized(c.a, c.n), c.n + 1)
    [] c.f = "cpy" -> c.a
    [] c.f = "ncpy" -> Fill(Cut(c.a, c.n), c.n)
    [] c.f = "cat" -> c.a \o c.b
    [] c.f = "ncat" -> c.a \o Cut(c.b, c.n)
    [] c.f = "rdup" -> <<c.n, IF c.a = Nil THEN Fill(<<>>, c.n + 1) ELSE Append(c.a, 0)>>
    [] c.f = "print" -> LET t == c.a \o <<58>> \o Canon(Digits(c.n)) IN <<Len(t), IF c.m = 0 THEN <<>> ELSE Cut(t, c.m - 1)>>
    [] c.f \in {"tol", "toul"} -> Num(c.a, c.n)
    [] c.f = "tod" -> Flt(c.a)
StrOk(c) == c.obs = Want(c)

Ok(c) == CASE c.k = "enc" -> EncOk(c)
           [] c.k = "back" -> BackOk(c)
           [] c.k = "dec" -> DecOk(c)
           [] c.k = "case" -> CaseOk(c)
           [] c.k = "str" -> StrOk(c)
Why(c) == IF c.k = "str" THEN ToJson(Want(c)) ELSE ""
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "want", Why(Cases[n])>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
