--------------------------------- MODULE Utf ---------------------------------
(* Characters and their encodings (rlib/rutf.c, rlib/rcharconv.c).                *)
(* A decoder consumes a whole well-formed character, or else exactly one byte,     *)
(* which it reports as the character.                                              *)
EXTENDS Naturals, Sequences, Integers

Cont(b) == b >= 128 /\ b < 192

(* <<character, bytes consumed>> at position i (1-based) of bs, i <= Len(bs) *)
Utf8At(bs, i) ==
  LET c == bs[i]
      n == Len(bs) - i + 1
      C(k) == n > k /\ Cont(bs[i + k])
      V(k) == bs[i + k] - 128
  IN  IF c < 128 THEN <<c, 1>>
      ELSE IF c >= 194 /\ c < 224 /\ C(1) THEN <<(c - 192) * 64 + V(1), 2>>
      ELSE IF c >= 224 /\ c < 240 /\ C(1) /\ C(2) THEN <<(c - 224) * 4096 + V(1) * 64 + V(2), 3>>
      ELSE IF c >= 240 /\ c < 245 /\ C(1) /\ C(2) /\ C(3)
           THEN <<(c - 240) * 262144 + V(1) * 4096 + V(2) * 64 + V(3), 4>>
      ELSE <<c, 1>>

Utf16At(bs, i) ==
  LET n == Len(bs) - i + 1
      w1 == bs[i] + 256 * bs[i + 1]
      w2 == bs[i + 2] + 256 * bs[i + 3]
  IN  IF n < 2 THEN <<bs[i], 1>>
      ELSE IF w1 < 55296 \/ w1 >= 57344 THEN <<w1, 2>>
      ELSE IF w1 < 56320 /\ n >= 4 /\ w2 >= 56320 /\ w2 < 57344
           THEN <<65536 + (w1 - 55296) * 1024 + (w2 - 56320), 4>>
      ELSE <<bs[i], 1>>

CharAt(enc, bs, i) ==
  CASE enc = 0 -> Utf8At(bs, i)
    [] enc = 1 -> <<bs[i], 1>>
    [] enc = 2 -> Utf16At(bs, i)

(* The sequence of <<character, size>> of a byte string *)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(enc, bs, i) ==
  IF i > Len(bs) THEN <<>>
  ELSE LET d == CharAt(enc, bs, i) IN <<d>> \o DecodeFrom(enc, bs, i + d[2])
Decode(enc, bs) == DecodeFrom(enc, bs, 1)

Utf8Enc(w) ==
  IF w < 128 THEN <<w>>
  ELSE IF w < 2048 THEN <<192 + w \div 64, 128 + (w % 64)>>
  ELSE IF w < 65536 THEN <<224 + w \div 4096, 128 + ((w \div 64) % 64), 128 + (w % 64)>>
  ELSE IF w < 1114112 THEN <<240 + w \div 262144, 128 + ((w \div 4096) % 64), 128 + ((w \div 64) % 64), 128 + (w % 64)>>
  ELSE <<>>

Surrogate(w) == w >= 55296 /\ w < 57344
Utf16Enc(w) ==
  IF Surrogate(w) \/ w >= 1114112 THEN <<>>
  ELSE IF w < 65536 THEN <<w % 256, w \div 256>>
  ELSE LET v == w - 65536
           h == 55296 + v \div 1024
           l == 56320 + (v % 1024)
       IN  <<h % 256, h \div 256, l % 256, l \div 256>>

(* The other-case partner of a letter, the character itself if there is none *)
In(w, a, b) == w >= a /\ w <= b
Partner(w) ==
  CASE In(w, 65, 90) -> w + 32
    [] In(w, 97, 122) -> w - 32
    [] In(w, 192, 223) -> w + 32        \* Latin-1
    [] In(w, 224, 255) -> w - 32
    [] In(w, 912, 939) -> w + 32        \* Greek
    [] In(w, 944, 971) -> w - 32
    [] In(w, 1040, 1071) -> w + 32      \* Cyrillic
    [] In(w, 1072, 1103) -> w - 32
    [] OTHER -> w
=============================================================================
