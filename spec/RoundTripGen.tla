---------------------------- MODULE RoundTripGen ----------------------------
(* Quantities to serialise and types to read them back at.                     *)
EXTENDS RoundTrip, Rand, Json
CONSTANTS Seed, NTypes
STypes == <<"f64", "f64", "f32", "f64", "i32", "u8", "f64", "i8", "i16", "u16", "u32">>
RNums(t) == IF t = "f64" THEN <<"1.0", "2.5", "-40.0", "0.0", "0.1", "123456.789", "-0.75", "7e20", "3e-15", "98.6", "1e200", "-1e-200", "1.7976931348623157e308", "9007199254740993.0", "0.3333333333333333">>
            ELSE IF t = "f32" THEN <<"1.0", "2.5", "-40.0", "0.0", "0.1", "300.0", "7e20", "3e-15", "-0.75", "3.4028235e38", "1e-38">>
            ELSE IF t = "u8" THEN <<"0", "1", "7", "255">> ELSE IF t = "i8" THEN <<"0", "-1", "-128", "127">>
            ELSE IF t \in {"u16", "u32"} THEN <<"0", "1", "7", "65535", "32">> ELSE IF t = "i32" THEN <<"0", "-2147483648", "2147483647", "-7">> ELSE <<"0", "1", "-1", "7", "-32768", "32767", "100">>
Dim(h) == LET m == Pick(h, 6) IN
    CASE m = 0 -> Catalogue[Choose(ListedSeq, h \div 6)].d
      [] m = 1 -> [j \in 1 .. 8 |-> IF j = 1 + Pick(h \div 6, 8) THEN Between(h \div 48, -200, 200) ELSE 0]
      [] m = 2 -> [j \in 1 .. 8 |-> Between(H(<<h, j>>), -3, 3)]
      [] m = 3 -> [j \in 1 .. 8 |-> IF j = 1 + Pick(h \div 6, 8) THEN Choose(<<1, -1, 2>>, h \div 48) ELSE 0]
      [] OTHER -> [j \in 1 .. 8 |-> IF Pick(H(<<h, j, 1>>), 3) = 0 THEN Between(H(<<h, j>>), -4, 4) ELSE 0]
Sc(h) == LET m == Pick(h, 5) IN
    CASE m = 0 -> <<0, 0, 0, 0>>
      [] m = 1 -> (LET e == Choose(<<3, -3, -2, 6, -9, -30, 30, 1, 12>>, h \div 5) IN <<e, 0, e, 0>>)
      [] OTHER -> [j \in 1 .. 4 |-> IF Pick(H(<<h, j>>), 2) = 0 THEN 0 ELSE IF j = 4 THEN Between(H(<<h, j, 2>>), -2, 2) ELSE IF m = 2 THEN Between(H(<<h, j, 2>>), -60, 60) ELSE Between(H(<<h, j, 2>>), -9, 9)]
Other(d, h) == LET j == 1 + Pick(h, 8)  m == Pick(h \div 8, 4) IN
    CASE m = 0 -> VNeg(d) [] m = 1 -> [d EXCEPT ![j] = @ + 1] [] m = 2 -> [d EXCEPT ![j] = @ - 1]
      [] m = 3 -> [d EXCEPT ![j] = d[1 + (j % 8)], ![1 + (j % 8)] = d[j]]
Job(n) == LET h == H(<<Seed, n, 1>>)  d == Dim(H(<<h, 1>>))  s == Sc(H(<<h, 2>>))  t == Choose(STypes, n) IN
    [d |-> d, s |-> s, t |-> t, b |-> Choose(<<"()", "B1", "()">>, h \div 3), vals |-> RNums(t), k |-> h % 1000,
     back |-> <<[d |-> d, s |-> s], [d |-> d, s |-> Sc(H(<<h, 3>>))], [d |-> d, s |-> Sc(H(<<h, 4>>))], [d |-> Other(d, H(<<h, 5>>)), s |-> s], [d |-> Other(d, H(<<h, 6>>)), s |-> Sc(H(<<h, 7>>))]>>]
VARIABLES zC
Init == zC \in (1 .. NTypes) \X {0}
Next == /\ zC[2] = 0 /\ zC' = <<zC[1], 1>> /\ PrintT("@@" \o ToJson([n |-> zC[1]] @@ Job(zC[1])))
=============================================================================
