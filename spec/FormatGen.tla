------------------------------ MODULE FormatGen -----------------------------
(* Quantity types, stored numbers and requests to format them.                 *)
EXTENDS SerialGen, Format
FTypes == <<"f64", "f64", "f32", "i32", "u8", "i8", "i16", "u16", "u32", "f64">>
FNums(t) == IF t = "f64" THEN <<"1.0", "2.5", "-40.0", "0.0", "1024.0", "0.1", "123456.789", "-0.75", "300.0", "7e20", "3e-15", "98.6", "1e200", "-1e-200", "0.0005", "999.9996">>
            ELSE IF t = "f32" THEN <<"1.0", "2.5", "-40.0", "0.0", "0.1", "300.0", "7e20", "3e-15", "-0.75">>
            ELSE IF t \in {"u8", "u16", "u32"} THEN <<"0", "1", "7", "100", "255", "32">> ELSE <<"0", "1", "-1", "7", "-128", "127", "100">>
Precs == <<-1, -1, 0, 1, 3, 6, 10, 17, 2, 24, 60>>
Widths == <<0, 0, 0, 12, 1, 30, 90>>
Request(t, ty, n, k) ==
    LET h == H(<<Seed, n, k, 17>>) IN
    [u |-> UnitFor(t, H(<<h, 1>>)), v |-> Choose(FNums(ty), H(<<h, 2>>)), prec |-> Choose(Precs, H(<<h, 3>>)), width |-> Choose(Widths, H(<<h, 4>>))]
FNext == /\ zC[2] = 0 /\ zC' = <<zC[1], 1>>
         /\ LET t == Target(zC[1])  ty == Choose(FTypes, zC[1]) IN
            PrintT("@@" \o ToJson([n |-> zC[1], t |-> t, ty |-> ty, ins |-> [k \in 1 .. PerTarget |-> Request(t, ty, zC[1], k)]]))
(* a unit asked for on purpose has the dimension of the quantity *)
Fitting == zC[2] = 0 => LET t == Target(zC[1]) IN \A k \in 1 .. 3 : LET e == Same(t.d, H(<<zC[1], k>>)) IN Exact(e).d = t.d
=============================================================================
