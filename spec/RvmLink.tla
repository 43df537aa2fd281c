------------------------------- MODULE RvmLink -------------------------------
(* Emitting code for the virtual machine: instructions, labels, data, references    *)
(* between them, and linking.  What a reference means is decided when linking, by    *)
(* the definition its label has then.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A label: name n, number i (-1: not seen yet), and what it stands for:            *)
(*   inv (nothing) | code v (place of an instruction) | data b (bytes) | num v |     *)
(*   off v (so far behind the label at position bs)                                 *)
(* An instruction: opcode and operands, number v, source place, and what it refers   *)
(* to: rel = 0 nothing | 1..: position of the label, rt: kind of reference.          *)
Empty == [labs |-> <<>>, code |-> <<>>, cur |-> 0, fresh |-> FALSE]
DEFAULT == 0   JUMP == 1   BRANCH == 2   STRREF == 3   BLOBREF == 4

At(s, n) == LET S == {k \in 1..Len(s.labs) : s.labs[k].n = n} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
(* a number handed out for the label at k fits: it is new, and numbers are in the    *)
(* order of first mention                                                           *)
Fits(s, k, i) == /\ i >= 0
                 /\ IF s.labs[k].i >= 0 THEN i = s.labs[k].i
                    ELSE \A m \in 1..Len(s.labs) : s.labs[m].i >= 0 => (m < k => s.labs[m].i < i) /\ (m > k => s.labs[m].i > i)
Mention(s, n) == IF At(s, n) > 0 THEN s ELSE [s EXCEPT !.labs = Append(@, [n |-> n, i |-> -1, ty |-> "inv", v |-> 0, b |-> <<>>, bs |-> 0])]
Put(s, n, ty, v, b) == LET t == Mention(s, n)
                           k == At(t, n)
                       IN  [t EXCEPT !.labs[k].ty = ty, !.labs[k].v = v, !.labs[k].b = b, !.labs[k].bs = 0]
Seen(s, n, i) == [s EXCEPT !.labs[At(s, n)].i = i]

Ins(o, a, v) == [o |-> o, a |-> a, v |-> v, rel |-> 0, rt |-> 0, src |-> 0]
Emit1(s, x) == [s EXCEPT !.code = Append(@, [x EXCEPT !.src = s.cur]), !.fresh = FALSE]
RECURSIVE EmitN(_, _, _)
EmitN(s, x, k) == IF k = 0 THEN s ELSE EmitN(Emit1(s, x), x, k - 1)
Nop(v) == Ins("NOP", <<0, 1, 2>>, v)

Pad(k) == LET t == ToString(k) IN CASE Len(t) = 1 -> "000000" \o t [] Len(t) = 2 -> "00000" \o t [] Len(t) = 3 -> "0000" \o t [] OTHER -> t
NumName(k, alpha) == "L" \o Pad(k) \o "__" \o alpha \o ":"

(* what the label at k stands for in the end (bases do not go in circles) *)
RECURSIVE Final(_, _)
Final(s, k) == LET l == s.labs[k]
                   f == Final(s, l.bs)
               IN  IF l.ty # "off" THEN [ty |-> l.ty, v |-> l.v, b |-> l.b, n |-> l.n]
                   ELSE IF f.ty = "data" THEN (IF l.v > Len(f.b) THEN [f EXCEPT !.ty = "beyond"] ELSE [f EXCEPT !.b = SubSeq(@, l.v + 1, Len(@)), !.v = @ + l.v])
                   ELSE IF f.ty \in {"code", "num"} THEN [f EXCEPT !.v = @ + l.v]
                   ELSE f
Missing(s) == {Final(s, s.code[k].rel).n : k \in {m \in 1..Len(s.code) : s.code[m].rel > 0 /\ Final(s, s.code[m].rel).ty = "inv"}}


(* a call: the state behind it and whether its answer is right *)
R(s, ok) == [s |-> s, ok |-> ok]
Lbl(s, n, ty, v, b, e) == LET t == [Put(s, n, ty, v, b) EXCEPT !.fresh = FALSE] IN IF Fits(t, At(t, n), e.ret) THEN R(Seen(t, n, e.ret), TRUE) ELSE R(t, FALSE)
Again(s, e, ty, v) == LET k == At(s, e.n)
                      IN  IF k = 0 THEN R(s, e.ret = -1)
                          ELSE Lbl(s, e.n, ty, v, <<>>, e)
Add(s, x, e) == R(Emit1(s, x), e.ret = Len(s.code))

(* what the data of instruction k is when everything is linked; p counts from 0     *)
Zero(b) == LET Z == {k \in 1..Len(b) : b[k] = 0} IN IF Z = {} THEN Len(b) ELSE (CHOOSE k \in Z : \A m \in Z : k <= m) - 1
Linked(s, k, d) ==
  LET x == s.code[k]
      l == Final(s, x.rel)
  IN  CASE l.ty = "code" -> CASE x.rt = BRANCH -> d.k = "N" /\ d.v = l.v - (k - 1)
                              [] x.rt = JUMP -> d.k \in {"C", "D"} /\ d.v = l.v - 1
                              [] OTHER -> d.k \in {"C", "D"} /\ d.v = l.v
        [] l.ty = "num" -> d.k = "N" /\ d.v = l.v
        [] l.ty = "data" -> /\ d.k = "D" /\ d.al = l.v % 8 /\ Len(d.b) >= Len(l.b)
                            /\ SubSeq(d.b, 1, Len(l.b)) = l.b /\ (Len(d.b) > Len(l.b) => d.b[Len(l.b) + 1] = 0)
                            /\ x.rt = STRREF => d.z = Zero(l.b)
        [] l.ty = "beyond" -> TRUE
DumpOk(s, d) ==
  /\ Len(d) = Len(s.code)
  /\ \A k \in 1..Len(d) :
       /\ d[k].o = s.code[k].o /\ d[k].a = s.code[k].a
       /\ IF s.code[k].rel = 0 THEN d[k].k = "N" /\ d[k].v = s.code[k].v
          ELSE s.fresh => Linked(s, k, d[k])

Step(s, e) ==
  CASE e.op = "ins"   -> Add(s, Nop(e.v), e)
    [] e.op = "fill"  -> R(EmitN(s, Nop(0), e.v), e.ret = Len(s.code) + e.v)
    [] e.op = "here"  -> Lbl(s, e.n, "code", Len(s.code), <<>>, e)
    [] e.op = "label" -> Lbl(s, e.n, "code", e.v, <<>>, e)
    [] e.op = "num"   -> Lbl(s, NumName(e.v, e.n), "code", Len(s.code), <<>>, e)
    [] e.op = "invnum" -> Lbl(s, NumName(e.v, e.n), "inv", 0, <<>>, e)
    [] e.op = "inv"   -> Lbl(s, e.n, "inv", 0, <<>>, e)
    [] e.op = "labins" -> Add(Put(s, e.n, "code", Len(s.code), <<>>), Nop(e.v), e)
    [] e.op = "rel"   -> LET t == Mention(s, e.n) IN Add(t, [Ins("NOP", <<"DA", 1, 2>>, 0) EXCEPT !.rel = At(t, e.n), !.rt = e.ty], e)
    [] e.op = "relidx" -> Add(s, [Ins("NOP", <<"DA", 1, 2>>, 0) EXCEPT !.rel = At(s, e.n), !.rt = e.ty], e)
    [] e.op = "redef" -> Again(s, e, "code", e.v)
    [] e.op = "redefhere" -> Again(s, e, "code", Len(s.code))
    [] e.op = "redefptr" -> Again(s, e, "num", e.v)
    [] e.op \in {"str", "data"} -> Lbl(s, e.n, "data", 0, e.b, e)
    [] e.op = "off"   -> LET t == Mention(s, e.n)
                             u == [t EXCEPT !.labs[At(t, e.n)] = [@ EXCEPT !.ty = "off", !.v = e.v, !.b = <<>>, !.bs = At(s, e.m)], !.fresh = FALSE]
                         IN  IF Fits(u, At(u, e.n), e.ret) THEN R(Seen(u, e.n, e.ret), TRUE) ELSE R(u, FALSE)
    [] e.op = "valid" -> R(s, e.ret = (IF At(s, e.n) > 0 /\ s.labs[At(s, e.n)].ty # "inv" THEN 1 ELSE 0))
    [] e.op = "look"  -> IF At(s, e.n) = 0 THEN R(s, e.ret = -1)
                         ELSE IF Fits(s, At(s, e.n), e.ret) THEN R(Seen(s, e.n, e.ret), TRUE) ELSE R(s, FALSE)
    [] e.op = "lookadd" -> LET t == Mention(s, e.n) IN IF Fits(t, At(t, e.n), e.ret) THEN R(Seen(t, e.n, e.ret), TRUE) ELSE R(t, FALSE)
    [] e.op = "last"  -> R(s, e.ret >= -1 /\ \A k \in 1..Len(s.labs) : s.labs[k].i <= e.ret)
    [] e.op = "name"  -> R(s, e.ret = (IF At(s, e.n) = 0 THEN "<none>" ELSE e.n))
    [] e.op = "size"  -> R(s, e.ret = Len(s.code))
    [] e.op = "cut"   -> R([s EXCEPT !.code = SubSeq(@, 1, e.v), !.fresh = FALSE], e.ret = 0)
    [] e.op = "repl"  -> R([s EXCEPT !.code[e.v + 1].v = e.ty, !.code[e.v + 1].a = <<0, 1, 2>>, !.code[e.v + 1].o = "NOP", !.fresh = FALSE], e.ret = e.v)
    [] e.op = "src"   -> R([s EXCEPT !.cur = e.v], e.ret = 0)
    [] e.op = "getsrc" -> R(s, e.ret = (IF e.v < Len(s.code) THEN s.code[e.v + 1].src ELSE -1))
    [] e.op = "func"  -> LET a == Put(Emit1(s, Ins("NOP", <<"XX", "XX", "XX">>, 0)), e.n, "code", Len(s.code) + 1, <<>>)
                             b == Emit1(a, Ins("PUSHM", <<"DA", "XX", "XX">>, 7168))
                             c == Emit1(b, Ins("MOV", <<"FP", "SP", "XX">>, 0))
                         IN  R(Emit1(c, Ins("ADD", <<"SP", "SP", "DA">>, e.v)), e.ret = Len(s.code) + 1)
    [] e.op = "vfunc" -> LET a == Put(Emit1(s, Ins("NOP", <<"XX", "XX", "XX">>, 0)), e.n, "code", Len(s.code) + 1, <<>>)
                             b == Emit1(a, Ins("PUSHM", <<"DA", "XX", "XX">>, 7168))
                             c == Emit1(b, Ins("MOV", <<"FP", "SP", "XX">>, 0))
                         IN  R(Emit1(c, Ins("ADD", <<"SP", "SP", 0>>, 0)), e.ret = Len(s.code) + 1)
    [] e.op = "fend"  -> LET a == Emit1(s, Ins("MOV", <<"SP", "FP", "XX">>, 0))
                             b == Emit1(a, Ins("POPM", <<"DA", "XX", "XX">>, 7168))
                         IN  R(Emit1(b, Ins("BX", <<"LR", "XX", "XX">>, 0)), e.ret = 0)
    [] e.op = "clear" -> R([Empty EXCEPT !.cur = s.cur], e.ret = 0)
    [] e.op = "link"  -> IF Missing(s) = {} THEN R([s EXCEPT !.fresh = TRUE], e.ret = 0)
                         ELSE R([s EXCEPT !.fresh = FALSE], e.ret < 0 /\ e.err \in Missing(s))
    [] e.op = "dump"  -> R(s, DumpOk(s, e.code))
=============================================================================
