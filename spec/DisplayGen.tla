----------------------------- MODULE DisplayGen -----------------------------
(* Quantity types to display.                                                  *)
EXTENDS Display, Rand, Json
CONSTANTS Seed, NRandom, Part, NTyped

NamedDims == {Catalogue[i].d : i \in Listed} \union {VZero(8), <<0,1,-1,0,0,0,0,0>>, <<0,1,-2,0,0,0,0,0>>, <<1,-3,0,0,0,0,0,0>>, <<1,1,-1,0,0,0,0,0>>, <<1,2,-1,0,0,0,0,0>>, <<0,-1,0,0,0,0,0,0>>, <<0,0,-1,0,0,0,0,1>>, <<0,-1,0,0,0,0,0,1>>}
PureDims == {[i \in 1 .. 8 |-> IF i = j THEN n ELSE 0] : <<j, n>> \in (1 .. 8) \X {-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 12, -120}}
CatScales == {<<2, 1, 1, 0>>, <<4, 2, 2, 0>>, <<7, 3, 2, 0>>, <<7, 3, 2, 0>>, <<-2, -2, -1, 1>>, <<1, 0, 0, 1>>, <<-3, 0, -2, 1>>, <<0, 0, 0, 1>>, <<0, 0, 0, -1>>, <<0, 0, 0, 2>>, <<1, 0, 0, 0>>, <<-1, -1, -1, 0>>, <<-2, -1, -1, 0>>, <<0, 1, 0, 0>>, <<10, 0, 0, 0>>, <<-1, 0, 0, 0>>, <<-4, -3, -2, 1>>, <<3, 0, 4, 0>>, <<4, 0, 3, 0>>}
TenScales == {<<k, 0, k, 0>> : k \in -36 .. 36}

DTypes == <<"f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
DNums(t) == IF t = "f64" THEN <<"1.0", "2.5", "-40.0", "0.0", "0.1", "123456.789", "-0.75", "7e20", "3e-15", "98.6", "1e200", "-1e-200", "1.7976931348623157e308", "0.3333333333333333", "99999.5", "9.99996", "0.0099999949", "5e-324", "-1e-310", "2.2250738585072014e-308", "1e-304", "-99999.4999", "31.4159265", "1e5", "1000000.5", "-0.0">>
            ELSE IF t = "f32" THEN <<"1.0", "2.5", "-40.0", "0.0", "0.1", "3.4028235e38", "1e-38", "1e-45", "-123456.78">>
            ELSE IF t \in {"u8", "i8"} THEN <<"0", "1", "7", "127">> ELSE IF t \in {"i16", "u16"} THEN <<"0", "32767", "12345">>
            ELSE IF t \in {"i32", "u32"} THEN <<"2147483647", "123456", "0", "99999">> ELSE IF t \in {"u128", "i128"} THEN <<"170141183460469231731687303715884105727", "1", "0", "1234567890123456789012">> ELSE <<"9223372036854775807", "1000000", "7", "0">>
DNeg(t) == IF t \in {"i8", "i16", "i32", "i64", "i128", "isize"} THEN DNums(t) \o <<"-1", "-128", "-77">> ELSE DNums(t)
RDim(h) == [j \in 1 .. 8 |-> IF Pick(H(<<h, j, 1>>), 3) = 0 THEN Between(H(<<h, j>>), -4, 4) ELSE 0]
RScale(h) == LET m == Pick(h, 6) IN
    CASE m = 0 -> <<0, 0, 0, 0>> [] m = 1 -> (LET k == Between(h \div 7, -40, 40) IN <<k, 0, k, 0>>)
      [] m = 2 -> [j \in 1 .. 4 |-> Between(H(<<h, j, 5>>), IF j = 4 THEN -3 ELSE -60, IF j = 4 THEN 3 ELSE 60)]
      [] OTHER -> [j \in 1 .. 4 |-> IF Pick(H(<<h, j, 6>>), 2) = 0 THEN 0 ELSE Between(H(<<h, j, 7>>), IF j = 4 THEN -1 ELSE -9, IF j = 4 THEN 1 ELSE 9)]
HV(v) == H([i \in DOMAIN v |-> v[i] + 300])
Case(k, d, s, h) == [c |-> k, d |-> d, s |-> s, h |-> h % 10007, v |-> Choose(DNums("f64"), h), typed |-> FALSE]
Typed(n) == LET h == H(<<Seed, n, 2>>)  t == Choose(DTypes, 3 * n)
                d == IF Pick(h, 3) = 0 THEN RDim(h) ELSE Catalogue[Choose(ListedSeq, h \div 3)].d
            IN [c |-> "t", d |-> d, s |-> RScale(H(<<h, 4>>)), h |-> n, t |-> t, b |-> Choose(<<"()", "B1", "B2">>, h \div 5), vals |-> DNeg(t), typed |-> TRUE]
VARIABLES zK, zD, zS, zDone
Init == /\ zDone = FALSE
        /\ \/ zK = 0 /\ zD \in NamedDims \union PureDims /\ zS \in CatScales \union TenScales
              /\ (Part = 1 \/ zS \in CatScales \/ H(<<Seed, HV(zD), HV(zS)>>) % Part = 0)
           \/ zK \in 1 .. NRandom /\ zD = RDim(H(<<Seed, zK, 3>>)) /\ zS = RScale(H(<<Seed, zK, 4>>))
           \/ zK \in {-n : n \in 1 .. NTyped} /\ zD = VZero(8) /\ zS = VZero(4)
Next == /\ ~zDone /\ zDone' = TRUE /\ UNCHANGED <<zK, zD, zS>>
        /\ PrintT("@@" \o ToJson(IF zK < 0 THEN Typed(-zK) ELSE Case(IF zK = 0 THEN "g" ELSE "r", zD, zS, H(<<Seed, zK, HV(zD), HV(zS)>>))))
=============================================================================
