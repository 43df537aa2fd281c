---------------------------- MODULE RxJsonJudge -----------------------------
(* Decides recorded runs of the JSON libraries (J01..J03).                               *)
EXTENDS RxJson, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT G
VARIABLES i, g
(* J01 *)
ReadWant(c) == LET r == TLCEval(Text(c.text)) IN IF r.ok /\ Depth(r) <= c.max THEN [ok |-> 1, v |-> r.v] ELSE [ok |-> 0, v |-> Null]
ReadOk(c) == LET w == ReadWant(c) IN c.got.ok = w.ok /\ (w.ok = 1 => c.got.v = w.v)
(* J02 *)
WriteOk(c) == LET v == TLCEval(Text(c.text))
                  w == TLCEval(Text(c.out))
              IN  w.ok /\ Ws(c.out, w.p) = Len(c.out) + 1 /\ Denotes(w.v, v.v, c.nullprop = 1, c.prec)
(* J03 *)
Match(ev, j) == CHOOSE h \in j + 1..Len(ev) : ev[h].e = 2 /\ ev[h].d = ev[j].d /\ \A x \in j + 1..h - 1 : ~(ev[x].e = 2 /\ ev[x].d = ev[j].d)
Opener(ev, j) == IF ev[j].e = 1 THEN j ELSE CHOOSE h \in 1..j - 1 : ev[h].e = 1 /\ ev[h].d = ev[j].d /\ Match(ev, h) = j
Records(r) == TLCEval([j \in 1..Len(r.ev) |-> LET b == Opener(r.ev, j) m == r.ev[Match(r.ev, b)]
                                      IN  <<r.ev[j].e, m.kind, r.ev[b].nm[1], r.ev[b].nm[2], m.from, m.at - m.from>>])
RECURSIVE Nav(_, _)
Nav(ev, j) == IF j > Len(ev) THEN <<>> ELSE (IF ev[j].e = 1 THEN <<<<j - 1, ev[j].d>>>> ELSE <<>>) \o Nav(ev, j + 1)
Faults(c, r) == LET deep == {j \in 1..Len(r.ev) : r.ev[j].e = 1 /\ r.ev[j].d > c.max}
                IN  (IF Len(r.ev) > c.n THEN {<<r.ev[c.n + 1].at, 4>>} ELSE {})
                    \cup {<<r.ev[j].at, 6>> : j \in deep}
                    \cup (IF r.ok THEN {} ELSE {<<r.ep, 5>>})
First(F) == {f \in F : \A h \in F : f[1] <= h[1]}
COk(c) == LET r == TLCEval(Text(c.text))
              F == First(Faults(c, r))
              recs == Records(r)
          IN  /\ c.got.out = <<-1, -1, -1, -1>>
              /\ IF F # {} THEN /\ c.got.ret < 0
                                /\ \E f \in F : c.got.err = f[2] /\ (f[2] = 4 \/ c.got.off = f[1])
                 ELSE /\ c.got.ret = recs[1][6]
                      /\ SubSeq(c.got.recs, 1, Len(recs)) = recs
                      /\ (Len(recs) < c.n => c.got.recs[Len(recs) + 1][1] # 1)
                      /\ c.got.nav = Nav(r.ev, 1)
CWhy(c) == LET r == Text(c.text) F == First(Faults(c, r)) IN IF F # {} THEN <<"fails", F>> ELSE <<Records(r), Nav(r.ev, 1)>>

Ok(c) == CASE c.k = "read" -> ReadOk(c) [] c.k = "write" -> WriteOk(c) [] c.k = "c" -> COk(c)
Why(c) == CASE c.k = "read" -> ReadWant(c) [] c.k = "write" -> Text(c.out) [] c.k = "c" -> CWhy(c)
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "want", ToString(Why(Cases[n]))>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
