-------------------------------- MODULE UtfMC --------------------------------
(* Properties of the definitions in Utf, for all characters and short byte strings.   *)
EXTENDS Utf, TLC
CONSTANTS Step, Top, Bs
VARIABLE w
Init == w \in {-k : k \in 1..64}
Next == w < 0 /\ w' \in {Step * k : k \in {k \in 0..(Top \div Step) : (k % 64) + 1 = -w}}
Spec == Init /\ [][Next]_w
Block == IF w < 0 THEN {} ELSE w..(w + Step - 1)
Inverse == \A x \in Block : x < 1114112 =>
             /\ Utf8At(Utf8Enc(x), 1) = <<x, Len(Utf8Enc(x))>>
             /\ IF Surrogate(x) THEN Utf16Enc(x) = <<>> ELSE Utf16At(Utf16Enc(x), 1) = <<x, Len(Utf16Enc(x))>>
             /\ \A tail \in {<<0>>, <<128>>, <<191, 191>>, <<0, 220>>} :
                  /\ Utf8At(Utf8Enc(x) \o tail, 1) = <<x, Len(Utf8Enc(x))>>
                  /\ ~Surrogate(x) => Utf16At(Utf16Enc(x) \o tail, 1) = <<x, Len(Utf16Enc(x))>>
Involution == \A x \in Block : Partner(Partner(x)) = x
(* decoding uses at least one byte and never more than there are                       *)
Inside == w = 0 => \A a, b, c \in Bs : \A e \in 0..2 : \A s \in {<<a>>, <<a, b>>, <<a, b, c>>, <<a, b, c, a>>} :
                     LET d == CharAt(e, s, 1) IN d[2] \in 1..Len(s) /\ (d[2] = 1 => d[1] = a)
=============================================================================
