------------------------------- MODULE RvmCpu --------------------------------
(* The virtual machine as a transition system: registers, flags, stack, memory,     *)
(* place in the program.  Words are small integers; a pointer to instruction k is   *)
(* CODE + k, to stack slot k STK + k, to register k of a memory block MEM + k.       *)
EXTENDS Integers, Sequences, FiniteSets
CODE == 2000000
STK == 1000000
MEM == 3000000
IP == 8
TP == 9
FP == 10
SP == 11
LR == 12
PC == 13
DA == 14
XX == 15
FUEL == 300
GREY == 78            \* not settled: nothing is compared
NOMEM == 7
LVALUE == 6
NOTFUNC == 8
SWITABLE == 5
USERABORT == 11
WILD == 77           \* left what is defined: the driver stops there
UNDEF == 6
PTR == 2
FUN == 13
SWIT == 14
OPH == 15

Rg(v, t) == [v |-> v, t |-> t]
Nil == Rg(0, 0)
(* size: slots of the stack; the rest of the stack is never looked at               *)
Start(off, size) == [r |-> [k \in 0..15 |-> IF k = PC THEN Rg(CODE + off, 0) ELSE Nil], f |-> {}, s |-> [k \in 0..(size - 1) |-> Nil],
                     m |-> [k \in 0..3 |-> Nil], err |-> 0, done |-> FALSE, log |-> <<>>, calls |-> <<>>]
InStack(s, k) == k \in DOMAIN s.s
V(s, k) == s.r[k].v
SetV(s, k, v) == [s EXCEPT !.r[k].v = v]
SetR(s, k, x) == [s EXCEPT !.r[k] = x]
Fail(s, e) == [s EXCEPT !.err = e, !.done = TRUE]
ULess(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0            \* as unsigned words
Fl(z, n, c) == (IF z THEN {"Z"} ELSE {}) \cup (IF n THEN {"N"} ELSE {}) \cup (IF c THEN {"C"} ELSE {})
Cond(f, c) == CASE c = "" -> TRUE
                [] c = "EQ" -> "Z" \in f
                [] c = "NEQ" -> "Z" \notin f
                [] c = "LES" -> "N" \in f
                [] c = "LEQ" -> "N" \in f \/ "Z" \in f
                [] c = "GRE" -> "N" \notin f /\ "Z" \notin f
                [] c = "GEQ" -> "N" \notin f \/ "Z" \in f
(* branches end in their condition: <<condition, relative>> *)
Br(op) == CASE op = "B" -> "" [] op = "BEQ" -> "EQ" [] op = "BNEQ" -> "NEQ" [] op = "BLES" -> "LES" [] op = "BLEQ" -> "LEQ" [] op = "BGRE" -> "GRE" [] op = "BGEQ" -> "GEQ"
Bx(op) == CASE op = "BX" -> "" [] op = "BXEQ" -> "EQ" [] op = "BXNEQ" -> "NEQ" [] op = "BXLES" -> "LES" [] op = "BXLEQ" -> "LEQ" [] op = "BXGRE" -> "GRE" [] op = "BXGEQ" -> "GEQ"
Rel == {"B", "BEQ", "BNEQ", "BLES", "BLEQ", "BGRE", "BGEQ"}
Abs == {"BX", "BXEQ", "BXNEQ", "BXLES", "BXLEQ", "BXGRE", "BXGEQ"}
BitOf(m, k) == (m \div 2^k) % 2 = 1
Mask(m) == {k \in 0..14 : BitOf(m, k)}
Off(s, i) == (IF i.o[2] # XX THEN V(s, i.o[2]) ELSE 0) + (IF i.o[3] # XX THEN V(s, i.o[3]) ELSE 0)
Reg(s, p) == IF p >= MEM THEN s.m[p - MEM] ELSE s.s[p - STK]
GoodReg(s, p) == (p >= MEM /\ p - MEM \in DOMAIN s.m) \/ (p >= STK /\ p < CODE /\ InStack(s, p - STK))
Store(s, p, x) == IF p >= MEM THEN [s EXCEPT !.m[p - MEM] = x] ELSE [s EXCEPT !.s[p - STK] = x]
Call(s, id, arg) == [s EXCEPT !.r[0].v = 500 + id, !.calls = Append(@, <<id, arg>>)]
Swi(s, id, arg) == IF id < 0 \/ id \div 256 >= 2 THEN Fail(s, SWITABLE) ELSE Call(s, id, arg)

RECURSIVE PushAll(_, _, _)
PushAll(s, ks, sp) ==   \* registers in ascending order above sp
  IF ks = {} THEN SetV(s, SP, sp)
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN PushAll([s EXCEPT !.s[sp + 1] = s.r[k]], ks \ {k}, sp + 1)
RECURSIVE PopAll(_, _, _, _)
PopAll(s, ks, sp, all) ==  \* in descending order
  IF ks = {} THEN IF SP \in all THEN s ELSE SetV(s, SP, sp)
  ELSE IF ~InStack(s, sp) THEN Fail(s, NOMEM)
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : x >= y IN PopAll([s EXCEPT !.r[k] = s.s[sp]], ks \ {k}, sp - 1, all)

(* Instruction i on state s (the place still that of i). *)
Do(s, i) ==
  LET a == i.o[1]
      b == i.o[2]
      c == i.o[3]
      x == V(s, a)
      y == V(s, b)
      z == V(s, c)
  IN
  CASE i.op = "EXT" -> [s EXCEPT !.done = TRUE]
    [] i.op = "ABORT" -> Fail(s, x)
    [] i.op = "NOP" -> s
    [] i.op = "MOV" -> SetR(s, a, s.r[b])
    [] i.op = "MOVS" -> [SetV(s, a, y) EXCEPT !.f = Fl(y = 0, y < 0, FALSE)]
    [] i.op = "SWP" -> SetR(SetR(s, a, s.r[b]), b, s.r[a])
    [] i.op = "ADD" -> SetV(s, a, y + z)
    [] i.op = "SUB" -> SetV(s, a, y - z)
    [] i.op = "INC" -> SetV(s, a, x + 1)
    [] i.op = "DEC" -> SetV(s, a, x - 1)
    [] i.op = "ADDS" -> [SetV(s, a, y + z) EXCEPT !.f = Fl(y + z = 0, y + z < 0, (y < 0 /\ z < 0) \/ ((y < 0) # (z < 0) /\ y + z >= 0))]
    [] i.op = "SUBS" -> [SetV(s, a, y - z) EXCEPT !.f = Fl(y = z, y - z < 0, ~ULess(y, z))]
    [] i.op = "CMP" -> [s EXCEPT !.f = Fl(x = y, x - y < 0, ULess(x, y))]
    [] i.op = "CFLAG" -> [s EXCEPT !.f = {q \in @ : ~BitOf(x, CASE q = "Z" -> 0 [] q = "N" -> 1 [] q = "C" -> 2)}]
    [] i.op = "CLR" -> SetR(s, a, Rg(0, UNDEF))
    [] i.op = "TYPE" -> SetR(s, a, Rg(s.r[b].t, 0))
    [] i.op = "SETTYPE" -> [s EXCEPT !.r[a].t = y % 65536]
    [] i.op \in Rel -> IF Cond(s.f, Br(i.op)) THEN [s EXCEPT !.r[PC].v = @ + x - 1] ELSE s
    [] i.op \in Abs -> IF Cond(s.f, Bx(i.op)) THEN SetV(s, PC, x) ELSE s
    [] i.op = "BL" -> [SetV(s, LR, V(s, PC)) EXCEPT !.r[PC].v = @ + x - 1]
    [] i.op = "BXL" -> LET l == SetV(s, LR, V(s, PC)) IN SetV(l, PC, V(l, a))
    [] i.op = "RET" -> SetV(s, PC, V(s, LR))
    [] i.op = "CALL" -> CASE s.r[a].t = SWIT -> LET l == SetV(s, LR, V(s, PC)) IN Swi(l, V(l, a), V(l, b))
                          [] s.r[a].t = FUN -> LET l == SetV(s, LR, V(s, PC)) IN SetV(l, PC, V(l, a))
                          [] s.r[a].t = OPH -> Call(s, 77, y)
                          [] OTHER -> Fail(s, NOTFUNC)
    [] i.op = "SWI" -> Swi(s, i.v, y)
    [] i.op = "SWIID" -> Swi(s, x, y)
    [] i.op = "USR" -> Call(s, 77, y)
    [] i.op = "PUSH" -> LET sp == V(s, SP) + 1 IN IF InStack(s, sp) THEN SetV([s EXCEPT !.s[sp] = s.r[a]], SP, sp) ELSE Fail(s, NOMEM)
    [] i.op = "POP" -> LET sp == V(s, SP) IN IF ~InStack(s, sp) THEN Fail(s, NOMEM)
                       ELSE LET p == SetR(s, a, s.s[sp]) IN IF a = SP THEN p ELSE SetV(p, SP, sp - 1)
    [] i.op = "PUSHM" -> LET sp == V(s, SP)           \* room for all registers is asked for
                         IN  IF InStack(s, sp + 1) /\ InStack(s, sp + 16) THEN PushAll(s, Mask(x), sp)
                                  ELSE IF InStack(s, sp + 1) /\ InStack(s, sp + Cardinality(Mask(x))) THEN Fail(s, GREY)     \* may refuse early
                                  ELSE IF Mask(x) = {} THEN Fail(s, GREY) ELSE Fail(s, NOMEM)
    [] i.op = "POPM" -> PopAll(s, Mask(x), V(s, SP), Mask(x))
    [] i.op = "STS" -> LET k == Off(s, i) IN IF InStack(s, k) THEN [s EXCEPT !.s[k] = s.r[a]] ELSE Fail(s, NOMEM)
    [] i.op = "LDS" -> LET k == Off(s, i) IN IF InStack(s, k) THEN SetR(s, a, s.s[k]) ELSE Fail(s, NOMEM)
    [] i.op = "ADDRS" -> LET k == Off(s, i) IN IF InStack(s, k) THEN SetR(s, a, Rg(STK + k, PTR)) ELSE Fail(s, NOMEM)
    [] i.op = "LDRR" -> SetR(s, a, Reg(s, y))
    [] i.op = "STRR" -> IF s.r[b].t # PTR THEN Fail(s, LVALUE) ELSE Store(s, y, s.r[a])
    [] i.op = "CLRR" -> Store(s, x, Rg(0, UNDEF))

(* what the driver refuses to run, because nothing is defined about it *)
Odd(v) == v >= 400000 \/ v <= -400000      \* no number to count with
Counts == {"INC", "DEC", "BL"} \cup Rel
Wild(s, i) == CASE i.op \in {"ADD", "SUB", "ADDS", "SUBS", "STS", "LDS", "ADDRS"} -> (i.o[2] # XX /\ Odd(V(s, i.o[2]))) \/ (i.o[3] # XX /\ Odd(V(s, i.o[3])))
                [] i.op = "CMP" -> Odd(V(s, i.o[1])) \/ Odd(V(s, i.o[2]))
                [] i.op \in {"MOVS", "SETTYPE"} -> Odd(V(s, i.o[2]))
                [] i.op \in Counts -> Odd(V(s, i.o[1]))
                [] i.op \in {"PUSH", "POP"} -> Odd(V(s, SP))
                [] i.op \in {"PUSHM", "POPM"} -> Odd(V(s, SP)) \/ V(s, i.o[1]) < 0 \/ V(s, i.o[1]) > 32767
                [] i.op = "CFLAG" -> V(s, i.o[1]) < 0 \/ V(s, i.o[1]) > 7
                [] i.op = "ABORT" -> V(s, i.o[1]) < 1 \/ V(s, i.o[1]) > 1000
                [] i.op = "LDRR" -> ~GoodReg(s, V(s, i.o[2]))
                [] i.op = "STRR" -> s.r[i.o[2]].t = PTR /\ ~GoodReg(s, V(s, i.o[2]))
                [] i.op = "CLRR" -> ~GoodReg(s, V(s, i.o[1]))
                [] i.op = "CALL" -> (s.r[i.o[1]].t = OPH /\ (i.o[1] # DA \/ i.t # OPH)) \/ (s.r[i.o[1]].t = SWIT /\ (V(s, i.o[1]) % 256 > 1 \/ V(s, i.o[1]) < 0 \/ V(s, i.o[1]) > 65535))
                [] i.op = "SWIID" -> V(s, i.o[1]) % 256 > 1 \/ V(s, i.o[1]) < 0 \/ V(s, i.o[1]) > 65535
                [] OTHER -> FALSE
UsesDA(i) == DA \in {i.o[1], i.o[2], i.o[3]}

Step(prog, s0) ==
  LET pc == V(s0, PC) - CODE
      i == prog[pc + 1]
      s == IF UsesDA(i) THEN SetR(s0, DA, Rg(i.v, i.t)) ELSE s0
  IN  IF Len(s.log) >= FUEL THEN [Fail(s, USERABORT) EXCEPT !.r[PC].v = @ + 1]
      ELSE LET l == [s EXCEPT !.log = Append(@, pc)]
               w == Wild(l, i)
               d == IF w THEN Fail(l, WILD) ELSE Do(l, i)
               n == V(d, PC) - CODE + 1
               e == IF ~d.done /\ (n < 0 \/ n >= Len(prog)) THEN Fail(d, WILD) ELSE d
           IN  [e EXCEPT !.r[PC].v = @ + 1]
RECURSIVE Run(_, _)
Run(prog, s) == IF s.done THEN s ELSE Run(prog, Step(prog, s))
=============================================================================
