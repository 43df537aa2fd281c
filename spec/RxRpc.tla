------------------------------- MODULE RxRpc --------------------------------
(* A JSON-RPC server: a map from names to methods, and what a request is answered (J05).    *)
(* The state is a sequence of [k |-> name, m |-> kind of method], sorted by name.            *)
EXTENDS RxJson
Str(s) == Leaf("str", s)
IntV(n) == Leaf("int", IF n < 0 THEN <<45, 48 - n>> ELSE <<48 + n>>)     \* -9..9
Arr(vs) == [t |-> "arr", s |-> <<>>, m |-> [j \in 1..Len(vs) |-> [k |-> <<>>, v |-> vs[j]]]]
Names == [help |-> <<104, 101, 108, 112>>, spec |-> <<115, 112, 101, 99>>, helpspec |-> <<104, 101, 108, 112, 115, 112, 101, 99>>,
          method |-> <<109, 101, 116, 104, 111, 100>>, params |-> <<112, 97, 114, 97, 109, 115>>, id |-> <<105, 100>>,
          result |-> <<114, 101, 115, 117, 108, 116>>, error |-> <<101, 114, 114, 111, 114>>, code |-> <<99, 111, 100, 101>>, message |-> <<109, 101, 115, 115, 97, 103, 101>>]
Builtin == {"help", "spec", "helpspec"}
RECURSIVE Place(_, _)
Place(s, e) == IF s = <<>> THEN <<e>>
               ELSE IF s[1].k = e.k THEN <<e>> \o Tail(s)
               ELSE IF Below(e.k, s[1].k) THEN <<e>> \o s
               ELSE <<s[1]>> \o Place(Tail(s), e)
Fresh == Place(Place(Place(<<>>, [k |-> Names.help, m |-> "help"]), [k |-> Names.spec, m |-> "spec"]), [k |-> Names.helpspec, m |-> "helpspec"])
Knows(s, k) == \E j \in 1..Len(s) : s[j].k = k
Kind(s, k) == s[CHOOSE j \in 1..Len(s) : s[j].k = k].m

(* the types a method takes: sets of type names per parameter, in the order null obj arr str bool int real *)
Order == <<"obj", "arr", "str", "bool", "int", "real", "null">>
Code == [null |-> 0, obj |-> 1, arr |-> 2, str |-> 3, bool |-> 4, int |-> 5, real |-> 6]
Word == [null |-> <<110, 117, 108, 108>>, obj |-> <<111, 98, 106, 101, 99, 116>>, arr |-> <<97, 114, 114, 97, 121>>, str |-> <<115, 116, 114, 105, 110, 103>>,
         bool |-> <<98, 111, 111, 108, 101, 97, 110>>, int |-> <<105, 110, 116, 101, 103, 101, 114>>, real |-> <<114, 101, 97, 108>>]
Takes(m) == CASE m = "help" -> <<{"str", "null"}>> [] m \in {"spec", "helpspec"} -> <<{"str"}>>
              [] m \in {"echo", "boom", "app"} -> <<{"int", "null"}, {"str"}>>
              [] m = "ver" -> <<{"int"}, {"str", "null"}, {"obj", "arr", "bool", "real"}>>
              [] m = "pair" -> <<{"int"}, {"int"}>> [] m = "cat" -> <<{"str"}, {"bool"}>>
              [] m = "real" -> <<{"real"}>> [] m = "nop" -> <<{"int"}>> [] m = "none" -> <<>>
              [] m = "mem" -> <<{"int"}, {"str"}>> [] m = "cmem" -> <<{"str"}>>
RECURSIVE Pick(_, _)
Pick(os, S) == IF os = <<>> THEN <<>> ELSE (IF Head(os) \in S THEN <<Head(os)>> ELSE <<>>) \o Pick(Tail(os), S)
One(x, words) == IF words THEN Str(Word[x]) ELSE IntV(Code[x])
Spec1(S, words) == LET p == Pick(Order, S) IN IF Len(p) = 1 THEN One(p[1], words) ELSE Arr([j \in 1..Len(p) |-> One(p[j], words)])
SpecOf(ts, words) == Arr([j \in 1..Len(ts) |-> Spec1(ts[j], words)])

(* what a method does with parameters ps: [ok, v, codes, log]; codes: the codes it may fail with *)
Yields(v, log) == [ok |-> TRUE, v |-> v, codes |-> {}, log |-> log]
Fails(codes, log) == [ok |-> FALSE, v |-> Null, codes |-> codes, log |-> log]
Resize(ps, n) == [j \in 1..n |-> IF j <= Len(ps) THEN ps[j] ELSE Null]
Fits(ps, ts) == \A j \in 1..Len(ts) : ps[j].t \in ts[j]
(* a typed function takes an integer for a real, and does not look at further parameters        *)
Wide(ts) == [j \in 1..Len(ts) |-> IF ts[j] = {"real"} THEN {"real", "int"} ELSE ts[j]]
Wraps == {"pair", "cat", "real", "nop", "none", "mem", "cmem"}
Lists(s) == LET RECURSIVE L(_)
                L(j) == IF j > Len(s) THEN <<>> ELSE s[j].k \o <<10>> \o L(j + 1)
            IN  L(1)
HelpText(m) == <<104, 101, 108, 112, 32>> \o m                              \* "help " and the kind
Plain(m) == CASE m = "echo" -> <<101, 99, 104, 111>> [] m = "boom" -> <<98, 111, 111, 109>> [] m = "app" -> <<97, 112, 112>> [] m = "ver" -> <<118, 101, 114>>
              [] m = "pair" -> <<112, 97, 105, 114>> [] m = "cat" -> <<99, 97, 116>> [] m = "real" -> <<114, 101, 97, 108>> [] m = "nop" -> <<110, 111, 112>>
              [] m = "none" -> <<110, 111, 110, 101>> [] m = "mem" -> <<109, 101, 109>> [] m = "cmem" -> <<99, 109, 101, 109>>
RECURSIVE Run(_, _, _, _)
Run(s, m, ps, mode) ==
  LET ts == Takes(m)
      n == Len(ts)
      ok == Len(ps) >= n /\ Fits(ps, Wide(ts))
      log == <<<<Plain(m), Arr(ps)>>>>
      used == <<<<Plain(m), Arr(SubSeq(ps, 1, n))>>>>
      other == IF Knows(s, ps[1].s) THEN Kind(s, ps[1].s) ELSE "-"
  IN  CASE mode = 1 -> Yields(SpecOf(ts, FALSE), <<>>)
        [] mode = 2 -> Yields(SpecOf(ts, TRUE), <<>>)
        [] mode = 3 -> IF m \in Builtin THEN Yields(Str(<<0>>), <<>>) ELSE Yields(Str(HelpText(Plain(m))), <<>>)
        [] m \in Builtin -> LET p == Resize(ps, 1)
                            IN  IF p[1].t \notin ts[1] THEN Fails({-32602}, <<>>)
                                ELSE IF p[1].t = "null" THEN Yields(Str(Lists(s)), <<>>)
                                ELSE IF ~Knows(s, p[1].s) THEN Fails({-32601}, <<>>)
                                ELSE Run(s, other, <<>>, CASE m = "spec" -> 1 [] m = "helpspec" -> 2 [] m = "help" -> 3)
        [] m = "echo" -> Yields(Arr(ps), log)
        [] m = "boom" -> Fails({-1}, log)
        [] m = "app" -> Fails({-32050}, log)
        [] m = "ver" -> LET p == Resize(ps, n) IN IF Fits(p, ts) THEN Yields(Arr(p), <<<<Plain(m), Arr(p)>>>>) ELSE Fails({-32602}, <<>>)
        [] m \in Wraps /\ ~ok -> Fails({-1, -32602}, <<>>)
        [] m = "pair" -> Yields(ps[2], used)
        [] m = "cat" -> Yields(IF ps[2].s = <<1>> THEN ps[1] ELSE Str(<<>>), used)
        [] m = "real" -> Yields(Leaf("real", AsReal(ps[1])), <<<<Plain(m), Arr(<<Leaf("real", AsReal(ps[1]))>>)>>>>)
        [] m = "nop" -> Yields(Str(<<>>), used)
        [] m = "none" -> Yields(IntV(7), <<<<Plain(m), Arr(<<>>)>>>>)
        [] m = "mem" -> Yields(ps[1], used)
        [] m = "cmem" -> Yields(ps[1], used)
Has(v, k) == v.t = "obj" /\ \E j \in 1..Len(v.m) : v.m[j].k = k
Field(v, k) == IF Has(v, k) THEN v.m[CHOOSE j \in 1..Len(v.m) : v.m[j].k = k].v ELSE Null
Elems(v) == [j \in 1..Len(v.m) |-> v.m[j].v]
(* the answer to a request that is the value v                                             *)
Answer(s, v, mode) ==
  LET ps == IF Has(v, Names.params) THEN Elems(Field(v, Names.params)) ELSE <<>>
      me == Field(v, Names.method)
      r == CASE v.t # "obj" -> Fails({-32700}, <<>>)
             [] Has(v, Names.params) /\ Field(v, Names.params).t # "arr" -> Fails({-32600}, <<>>)
             [] me.t # "str" -> Fails({-32600}, <<>>)
             [] ~Knows(s, me.s) -> Fails({-32601}, <<>>)
             [] OTHER -> Run(s, Kind(s, me.s), ps, mode)
  IN  [r |-> r, id |-> Field(v, Names.id)]
Request(e) == CASE e.how = "parts" -> [t |-> "obj", s |-> <<>>, m |-> <<[k |-> Names.id, v |-> e.id], [k |-> Names.method, v |-> Str(e.name)], [k |-> Names.params, v |-> e.params]>>]
                [] OTHER -> Text(e.text).v
Well(e) == e.how = "parts" \/ (Text(e.text).ok /\ Depth(Text(e.text)) <= 32)
Want(s, e) == IF ~Well(e) THEN [r |-> Fails({-32700}, <<>>), id |-> Null] ELSE Answer(s, Request(e), e.mode)
CodeOf(v) == Field(v, Names.code)
Digs(n) == LET RECURSIVE D(_)
               D(x) == IF x < 10 THEN <<48 + x>> ELSE Append(D(x \div 10), 48 + (x % 10))
           IN  IF n < 0 THEN <<45>> \o D(-n) ELSE D(n)
Boom == <<98, 111, 111, 109>>
RespOk(s, e, v) ==
  LET w == Want(s, e)
      er == Field(v, Names.error)
  IN  /\ v.t = "obj" /\ Len(v.m) = 3 /\ \A k \in {Names.result, Names.id, Names.error} : Has(v, k)
      /\ Field(v, Names.id) = w.id
      /\ IF w.r.ok THEN er = Null /\ (Field(v, Names.result) = w.r.v \/ (w.r.v = Str(<<0>>) /\ Field(v, Names.result).t = "str"))
         ELSE /\ Field(v, Names.result) = Null
              /\ \E c \in w.r.codes : CodeOf(er) = Leaf("int", Digs(c))
              /\ Field(er, Names.message).t = "str"
              /\ (w.r.log # <<>> => Field(er, Names.message) = Str(Boom))
Do(s, e) == CASE e.op = "add" -> IF e.name = <<>> \/ e.kind = "empty" THEN s ELSE Place(s, [k |-> e.name, m |-> e.kind])
              [] OTHER -> s
Ok(s, e) == CASE e.op = "add" -> e.x = (IF e.name = <<>> \/ e.kind = "empty" THEN 1 ELSE 0)
              [] e.op = "call" -> RespOk(s, e, e.ret) /\ e.log = Want(s, e).r.log
              [] e.op = "types" -> /\ e.ret = SpecOf([j \in 1..Len(e.ts) |-> {e.ts[j][h] : h \in 1..Len(e.ts[j])}], FALSE)
                                   /\ e.words = SpecOf([j \in 1..Len(e.ts) |-> {e.ts[j][h] : h \in 1..Len(e.ts[j])}], TRUE)
                                   /\ e.back = e.masks
=============================================================================
