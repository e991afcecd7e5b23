----------------------------- MODULE DeclareGen -----------------------------
(* Every way of writing a unit, in every syntax that declares a quantity.      *)
EXTENDS Declare, Rand, Json
CONSTANTS Seed, Stride           \* every Stride-th prefixed unit per syntax

Syntaxes == <<"q", "qi", "qT", "qB", "u", "uT", "mf", "mi", "lf", "li", "lT", "mT", "mT", "mT", "mT", "qT", "lT">>
Code(f, k) == H(<<Seed, f.i, f.pre, Len(f.w), k>>)
(* the names of declarator methods come from the long names *)
IsName(f) == f.w = Catalogue[f.i].name \/ (f.pre > 0 /\ f.w = Prefixes[f.pre].name \o Catalogue[f.i].name)
IsSymbol(f) == f.pre = 0 /\ f.w \in Range(Catalogue[f.i].syms)
NoSuffix == {"in", "as", "self", "fn", "if", "do", "mod", "pub", "ref", "use", "let", "mut", "for"}
(* after digits a letter e begins an exponent *)
AfterDigits(f) == f.w \in {"eV", "erg"} \/ (f.pre > 0 /\ Range(Prefixes[f.pre].syms) = {"E"})
Floats == <<"1.0", "2.5", "0.0", "1024.0", "0.1", "123456.789", "3.0", "0.001", "7.0">>
Signed == <<"-1.0", "-40.0", "-0.75", "2.5", "1.0", "300.0", "1000000000.0">>
Ints == <<"1", "7", "100", "3", "12", "2">>
Negs == <<"-3", "5", "-100", "1", "90", "-1">>
(* the largest numbers, and those beyond the next smaller type *)
Extreme(t) ==
    CASE t = "i8" -> <<"127", "-128">> [] t = "u8" -> <<"255", "128">>
      [] t = "i16" -> <<"32767", "-32768", "300">> [] t = "u16" -> <<"65535", "40000">>
      [] t = "i32" -> <<"2147483647", "-2147483648", "16777217", "-70000">> [] t = "u32" -> <<"4294967295", "3000000000", "16777217">>
      [] t \in {"i64", "isize"} -> <<"9223372036854775807", "-9223372036854775808", "9007199254740993", "3000000000", "-4000000000", "5000000000000", "16777217">>
      [] t \in {"u64", "usize"} -> <<"18446744073709551615", "9007199254740993", "10000000000000000000", "5000000000", "16777217">>
      [] t = "i128" -> <<"170141183460469231731687303715884105727", "-20000000000000000000", "9007199254740993", "3000000000">>
      [] t = "u128" -> <<"340282366920938463463374607431768211455", "20000000000000000000", "9007199254740993", "3000000000">>
      [] t = "f32" -> <<"16777216.0", "123456.79", "3.0e38", "1.0e-40", "-2.5e-30", "7654321.0", "1.00000005960464477539062500001">>   \* the last lies just above the middle of two f32
      [] t = "f64" -> <<"9007199254740991.0", "123456789.123456789", "1.5e300", "4.0e-320", "-2.5e-200", "16777217.0">>
Unsigned(s) == SelectSeq(s, LAMBDA x : \A n \in {"-128", "-32768", "-2147483648", "-70000", "-9223372036854775808", "-4000000000", "-20000000000000000000", "-2.5e-30", "-2.5e-200", "3.0e38", "1.0e-40", "1.5e300", "4.0e-320"} : x # n)
Job(f, k) ==
    LET h == Code(f, k)  syn == Syntaxes[k]
        t == CASE syn = "mT" -> Choose(<<"f64", "i64", "i32", "i64">>, h)
               [] syn \in {"q", "mf", "u", "lf"} -> "f64" [] syn \in {"qi", "mi", "li"} -> "i32"
               [] syn = "lT" -> Choose(<<"f64", "f32", "i32", "i64", "u32", "u64">>, h)
               [] OTHER -> Types[1 + Pick(h, 14)]
        b == IF syn = "qB" \/ (syn = "uT" /\ Pick(h \div 7, 2) = 0) THEN "B1" ELSE "()"
        x == IF Pick(h \div 11, IF syn = "mT" THEN 2 ELSE 3) = 0 THEN Choose(IF syn \in {"lf", "li", "lT"} THEN Unsigned(Extreme(t)) ELSE Extreme(t), h \div 5)
             ELSE IF IsFloat(t) THEN (IF syn \in {"lf", "lT"} THEN Choose(Floats, h \div 5) ELSE Choose(Floats \o Signed, h \div 5))
             ELSE (IF syn \in {"li", "lT"} \/ ~IsSigned(t) THEN Choose(Ints, h \div 5) ELSE Choose(Ints \o Negs, h \div 5))
    IN [w |-> f.w, name |-> Catalogue[f.i].name, pname |-> IF f.pre = 0 THEN "" ELSE Prefixes[f.pre].name, i |-> f.i, e |-> f.e, pre |-> f.pre, syn |-> syn, t |-> t, b |-> b, x |-> x]
Possible(f, k) ==
    CASE Syntaxes[k] \in {"mf", "mi", "mT"} -> IsName(f)
      [] Syntaxes[k] \in {"lf", "li", "lT"} -> ~IsName(f) /\ f.w \notin NoSuffix /\ ~AfterDigits(f)
      [] OTHER -> TRUE
Chosen(f, k) == f.pre = 0 \/ Stride = 1 \/ Pick(H(<<Seed, f.pre, f.i, Len(f.w), k, 9>>), Stride) = 0

VARIABLES zJ
Init == zJ \in {<<f, k>> \in Forms \X (1 .. Len(Syntaxes)) : Possible(f, k) /\ Chosen(f, k)}
Next == /\ Len(zJ) = 2 /\ zJ' = <<zJ[1], zJ[2], 0>>
        /\ PrintT("@@" \o ToJson(Job(zJ[1], zJ[2]) @@ [must |-> CASE Syntaxes[zJ[2]] \in {"qi", "mT"} -> FALSE [] Syntaxes[zJ[2]] \in {"lf", "li", "lT"} -> IsSymbol(zJ[1]) [] OTHER -> TRUE]))
=============================================================================
