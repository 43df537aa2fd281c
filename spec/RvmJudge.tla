------------------------------ MODULE RvmJudge -------------------------------
(* Recorded instructions and programs against RvmAlu and RvmCpu.                    *)
EXTENDS RvmAlu, TLC, IOUtils, Json
CONSTANT G
M == INSTANCE RvmCpu
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, g

W64(l) == [k \in 1..64 |-> (l[(k - 1) \div 16 + 1] \div 2^((k - 1) % 16)) % 2]
Flags(n) == {q \in {"Z", "N", "C", "V", "E"} : (n \div (CASE q = "Z" -> 1 [] q = "N" -> 2 [] q = "C" -> 4 [] q = "V" -> 8 [] q = "E" -> 16)) % 2 = 1}
(* one instruction on full words; operand 14 is the instruction's own data            *)
AluOk(c) ==
  LET Val(k) == IF k = 14 THEN W64(c.data) ELSE W64(c.r[k + 1])
      y == Val(c.o[2])
      x0 == Exec(c.op, Val(c.o[1]), y, Val(c.o[3]), Flags(c.st))
      e == IF c.known THEN [x0 EXCEPT !.f = AsBuilt(c.op, Val(c.o[1]), y, Val(c.o[3]), x0.f)] ELSE x0
      same == {k \in 1..13 : k - 1 # c.o[1]}
  IN  CASE c.op = "SWP" -> c.ret = 0 /\ Flags(c.st2) = Flags(c.st)
                           /\ \A k \in 0..12 : LET q == IF k = c.o[1] THEN c.o[2] ELSE IF k = c.o[2] THEN c.o[1] ELSE k IN c.r2[k + 1] = c.r[q + 1] /\ c.t2[k + 1] = c.t[q + 1]
        [] OTHER -> /\ c.ret = (IF e.err = 0 THEN 0 ELSE -1) /\ c.err = e.err
                    /\ (Flags(c.st2) = e.f) \/ (c.op = "ROR" /\ IsZero(Val(c.o[3])) /\ Flags(c.st2) \ {"C"} = e.f \ {"C"})
                    /\ \A k \in same : c.r2[k] = c.r[k] /\ c.t2[k] = c.t[k]
                    /\ LET k == c.o[1] + 1
                       IN  IF k = 15 THEN TRUE
                           ELSE /\ W64(c.r2[k]) = (IF e.w = <<>> THEN W64(c.r[k]) ELSE e.w)
                                /\ c.t2[k] = (IF c.op # "MOV" THEN c.t[k] ELSE IF c.o[2] = 14 THEN 0 ELSE c.t[c.o[2] + 1])
(* loads and stores: bytes of a block, one of the registers points into it           *)
Bytes(w) == [k \in 1..8 |-> (w[(k - 1) \div 2 + 1] \div (IF k % 2 = 1 THEN 1 ELSE 256)) % 256]
Limbs(b) == [k \in 1..4 |-> b[2 * k - 1] + 256 * b[2 * k]]
Size(op) == CASE op \in {"STR", "STRP", "LDR", "LDRP"} -> 8 [] op \in {"STRB", "LDRB"} -> 1 [] op \in {"STRH", "LDRH"} -> 2 [] op \in {"STRW", "LDRW"} -> 4
Here == <<0, 0, 0, 1>>     \* the pointer itself
Ord(S) == SetToSortSeq(S, LAMBDA p, q : p < q)
MemOk(c) ==
  LET R == [c.r EXCEPT ![c.base + 1] = Here]
      a == c.off
      regs == Ord({k \in 0..7 : (c.mask \div 2^k) % 2 = 1})
  IN  /\ c.ret = 0 /\ c.err = 0
      /\ CASE c.op \in {"STR", "STRP", "STRB", "STRH", "STRW"} ->
                /\ c.r2 = R
                /\ c.m2 = [k \in 1..Len(c.m) |-> IF k > a /\ k <= a + Size(c.op) THEN Bytes(R[c.o[1] + 1])[k - a] ELSE c.m[k]]
           [] c.op \in {"LDR", "LDRP", "LDRB", "LDRH", "LDRW"} ->
                /\ c.m2 = c.m
                /\ c.r2 = [R EXCEPT ![c.o[1] + 1] = Limbs([k \in 1..8 |-> IF k <= Size(c.op) THEN c.m[a + k] ELSE 0])]
           [] c.op = "STM" ->
                /\ c.r2 = R
                /\ c.m2 = [k \in 1..Len(c.m) |-> IF k > a /\ k <= a + 8 * Len(regs) THEN Bytes(R[regs[(k - a - 1) \div 8 + 1] + 1])[((k - a - 1) % 8) + 1] ELSE c.m[k]]
           [] c.op = "LDM" ->
                /\ c.m2 = c.m
                /\ c.r2 = [k \in 1..8 |-> IF \E j \in 1..Len(regs) : regs[j] = k - 1
                                          THEN LET j == CHOOSE j \in 1..Len(regs) : regs[j] = k - 1 IN Limbs([q \in 1..8 |-> c.m[a + 8 * (j - 1) + q]])
                                          ELSE R[k]]
(* programs *)
Pair(x) == <<IF x.t = 15 THEN 0 ELSE x.v, x.t>>      \* where a handler lives is not compared
ProgWant(c) == M!Run(c.prog, M!Start(c.off, c.size))
Cmp(s, c, o) ==
  s.err = M!GREY \/
  /\ o.err = s.err /\ (o.ret = 0 <=> s.err = 0)
  /\ s.err = M!WILD \/ s.err = M!NOMEM
     \/ /\ \A k \in 0..14 : o.r[k + 1] = Pair(s.r[k])
        /\ Flags(o.st) \cap {"Z", "N", "C"} = s.f      \* the overflow flag is V01's
        /\ \A k \in 0..(Len(o.s) - 1) : o.s[k + 1] = Pair(s.s[k])
        /\ \A k \in 0..3 : o.m[k + 1] = Pair(s.m[k])
  /\ o.calls = s.calls
  /\ o.log = <<>> \/ o.log = s.log
ProgOk(c) == LET s == ProgWant(c) IN \A k \in 1..Len(c.obs) : Cmp(s, c, c.obs[k])
(* tables of software interrupts: a sequence of [name, which]                        *)
Names == << <<"one", "two">>, <<"two", "three">>, <<"thr", "three3", "one">> >>
RECURSIVE Swis(_, _)
Find(tab, k, n) == LET q == {j \in 1..Len(Names[tab[k].w + 1]) : Names[tab[k].w + 1][j] = n} IN IF q = {} THEN -1 ELSE (k - 1) * 256 + (CHOOSE j \in q : \A m \in q : j <= m) - 1
First(tab, S, n) == LET q == {k \in S : Find(tab, k, n) >= 0} IN IF q = {} THEN -1 ELSE Find(tab, CHOOSE k \in q : \A m \in q : k <= m, n)
Swis(tab, es) ==
  IF es = <<>> THEN TRUE
  ELSE LET e == es[1]
           at == {k \in 1..Len(tab) : tab[k].n = e.t}
       IN  IF e.op = "add" THEN e.a = 0 /\ Swis(IF at = {} THEN Append(tab, [n |-> e.t, w |-> e.w]) ELSE [tab EXCEPT ![CHOOSE k \in at : TRUE] = [n |-> e.t, w |-> e.w]], Tail(es))
           ELSE e.a = First(tab, IF e.t = "-" THEN 1..Len(tab) ELSE at, e.n) /\ Swis(tab, Tail(es))

Ok(c) == CASE c.k = "alu" -> AluOk(c)
           [] c.k = "mem" -> MemOk(c)
           [] c.k = "prog" -> ProgOk(c)
           [] c.k = "swi" -> Swis(<<>>, c.ev)
Why(c) == CASE c.k = "alu" -> ToJson(Exec(c.op, IF c.o[1] = 14 THEN W64(c.data) ELSE W64(c.r[c.o[1] + 1]), IF c.o[2] = 14 THEN W64(c.data) ELSE W64(c.r[c.o[2] + 1]), IF c.o[3] = 14 THEN W64(c.data) ELSE W64(c.r[c.o[3] + 1]), Flags(c.st)))
            [] c.k = "prog" -> ToJson(ProgWant(c))
            [] OTHER -> ""
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "want", Why(Cases[n])>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
