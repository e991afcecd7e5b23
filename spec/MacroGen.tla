------------------------------ MODULE MacroGen ------------------------------
(* Places that take an expression, and expressions for them, full of names     *)
(* that the expansions of the macros use or might use themselves.              *)
EXTENDS Macro, Rand, Json, IOUtils
CONSTANTS Seed, N, NameFile
(* further names, of whatever the expansions declare in this tree *)
Found == ndJsonDeserialize(NameFile)[1]

Lower0 == <<"value", "raw_value", "storage_value", "scaled_value", "converted_value", "result", "quantity", "declared_quantity", "q", "x", "m", "km", "ft",
           "unit", "unit_str", "e", "json", "string", "rescale", "scale", "dimension", "offset", "factor", "s", "v", "val", "tmp", "input", "out", "mm", "degC">>
Upper0 == <<"Quantity", "Scale", "Dimension", "TargetQuantity", "T", "Q", "L", "M", "K", "N", "A", "_M", "_L", "_T", "_I", "_N", "_J", "_A", "_2", "_3", "_5", "_Pi",
           "UNIT_INFO", "DIMENSIONS", "SCALES", "Brand", "Length", "Mass", "Meter", "OFFSET", "RESULT", "VALUE", "U", "B">>
Others(found, listed) == SelectSeq(found, LAMBDA w : \A i \in DOMAIN listed : listed[i] # w)
Lower == Lower0 \o Others(Found.lower, Lower0)
Upper == Upper0 \o Others(Found.upper, Upper0)
(* mostly the names of the lists above, which the random places have use for *)
Lw(h) == IF Pick(h \div 11, 4) > 0 THEN Choose(Lower0, h) ELSE Choose(Lower, h)
Up(h) == IF Pick(h \div 11, 4) > 0 THEN Choose(Upper0, h) ELSE Choose(Upper, h)
(* distinct ones, by strides prime to the lengths *)
LwN(h, i) == Lower0[1 + ((Pick(h, 31) + 7 * i) % 31)]
UpN(h, i) == Upper0[1 + ((Pick(h, 34) + 5 * i) % 34)]
ASSUME Len(Lower0) = 31 /\ Len(Upper0) = 34

Tys == <<"f64", "f32", "i32", "i64", "f64", "f32", "i32", "i64", "i8", "i16", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
Ty(h) == Tys[1 + Pick(h, 18)]
Unsigned == {"u8", "u16", "u32", "u64", "u128", "usize"}
(* m: the macro; u: its unit; base: the unit of the quantity it is given *)
Declaring == <<"km", "m", "ft", "degC", "degF", "deg", "m/s", "ft/s", "mi.h", "K", "arcsec^2", "km^-2">>
Read(base) == CASE base = "km" -> <<"km", "m", "ft", "mi", "mm">> [] base = "K" -> <<"degC", "degF", "K", "mK">>
                [] base = "rad" -> <<"deg", "rad", "mrad">> [] OTHER -> <<"km/h", "ft/s", "m/s", "mi/h">>
Rescaled(base) == CASE base = "km" -> <<"km", "m", "mm">> [] base = "K" -> <<"K", "mK">> [] base = "rad" -> <<"rad", "mrad">> [] OTHER -> <<"m/s", "mm/s", "km/s">>
(* pi-free scales only, where whole numbers are rescaled *)
Site(h) ==
    LET m == Choose(<<"qd", "qd", "qt", "qt", "qb", "qa", "ld", "lt", "lb", "vd", "vt", "vb", "vt", "rd", "rt", "rt", "fj", "fs">>, h)
        base == Choose(<<"km", "K", "rad", "m/s">>, h \div 5)
        one == m \in {"qd", "ld", "lb", "vd", "rd", "fj", "fs"}
    IN [m |-> m, base |-> base, t |-> IF one THEN "f64" ELSE Ty(h \div 11),
        u |-> IF m \in {"vd", "vt", "vb"} THEN Choose(Read(base), h \div 7) ELSE IF m \in {"rd", "rt"} THEN Choose(Rescaled(base), h \div 7)
              ELSE IF m \in {"fj", "fs"} THEN Choose(<<"m", "km", "mm">>, h \div 7) ELSE IF m \in {"ld", "lt", "lb"} THEN Choose(<<"km", "m", "ft", "m/s", "s", "kg.m2/s2", "deg">>, h \div 7)
              ELSE Choose(Declaring, h \div 7)]
(* s: the kind of expression: "n" a number, "q" a quantity, "s" a text *)
Kind(m) == IF m \in {"fj", "fs"} THEN "s" ELSE IF m \in {"vd", "vt", "vb", "rd", "rt"} THEN "q" ELSE "n"

Leaf(h, names) == LET n == 1 + Pick(h \div 7, 9) IN
    CASE Pick(h, 4) = 0 -> [k |-> "lit", n |-> n] [] Pick(h, 4) \in {1, 2} -> [k |-> "tick", n |-> n] [] OTHER -> [k |-> "var", x |-> Choose(names, h \div 5)]
(* s: "n", "u" (no negatives), "q", "v" (quantities without negatives) or "s" *)
RECURSIVE Gen(_, _, _, _, _)
Gen(hh, d, names, s, exits) ==
    LET h == H(<<hh, d, 17>>)
        sub(i, ns, ex) == Gen(H(<<hh, d, i>>), d - 1, ns, s, ex)
        a == sub(1, names, exits)  n == 11 + Pick(h \div 13, 40)  on == Pick(h \div 3, 3) = 0
        x == Lw(h \div 9)  xc == Up(h \div 9)
        ops == <<"leaf", "let", "let", "flag", "same", "ann", "cst">> \o (IF exits THEN <<"leave", "try">> ELSE <<>>) \o
               (IF s = "s" THEN <<>> ELSE <<"add", "add", "mul", "twice", "via">>) \o (IF s \in {"n", "q"} THEN <<"neg">> ELSE <<>>)
        k == Choose(ops, h)
    IN IF d = 0 \/ k = "leaf" THEN Leaf(h, names)
       ELSE CASE k = "let"  -> LET r == Pick(h \div 17, 3) IN [k |-> k, r |-> r, x |-> x, a |-> a, b |-> sub(2, Append(names, x), exits /\ r < 2)]
              [] k = "cst"  -> [k |-> k, x |-> xc, n |-> 1 + Pick(h \div 7, 9), b |-> sub(2, Append(names, xc), exits)]
              [] k \in {"flag", "leave"} -> [k |-> k, n |-> n, on |-> on, a |-> a, b |-> sub(2, names, exits)]
              [] k = "try"  -> [k |-> k, n |-> n, on |-> on]
              [] k \in {"neg"} -> [k |-> k, a |-> a]
              [] k = "ann"  -> [k |-> k, r |-> Pick(h \div 17, 2), a |-> a]
              [] k = "via"  -> [k |-> k, r |-> Pick(h \div 17, 3), a |-> a]
              [] k \in {"twice", "same"} -> [k |-> k, n |-> n, a |-> a]
              [] k = "mul"  -> [k |-> k, a |-> a, b |-> [k |-> IF on THEN "lit" ELSE "tick", n |-> 1 + Pick(h \div 19, 3)]]
              [] OTHER      -> [k |-> k, a |-> a, b |-> sub(2, names, exits)]
Sign(s, t) == IF t \notin Unsigned THEN s ELSE IF s = "n" THEN "u" ELSE IF s = "q" THEN "v" ELSE s
Job(c) ==
    LET h == H(<<Seed, c, 1>>)  h2 == H(<<Seed, c, 2>>)  site == Site(H(<<Seed, c, 3>>))
        names == <<[x |-> LwN(h, 0), v |-> 1 + Pick(h2, 9), k |-> "let"], [x |-> LwN(h, 1), v |-> 1 + Pick(h2 \div 5, 9), k |-> "let"], [x |-> UpN(h \div 31, 0), v |-> 1 + Pick(h2 \div 7, 9), k |-> "const"]>>
        d == IF site.t \in {"i8", "u8"} THEN 1 ELSE 1 + Pick(h2 \div 11, 3)
        e == Gen(H(<<Seed, c, 4>>), d, [i \in 1 .. 3 |-> names[i].x], Sign(Kind(site.m), site.t), TRUE)
        r == Eval(e, Env(names))
    IN [c |-> c, site |-> site, s |-> Kind(site.m), names |-> names, alias |-> UpN(h \div 31, 1), brand |-> UpN(h \div 31, 2), e |-> e, v |-> r.v, x |-> r.x]

(* Every name at every place: all of them bound, a chunk at a time, and summed *)
S(m, base, us, ts) == [m : {m}, base : {base}, u : us, t : ts]
Wide == {"f64", "f32", "i32", "i64", "i128", "isize", "u32", "u64", "u128", "usize"}
Places == S("qd", "km", {"km", "ft", "degC", "degF", "ft/s"}, {"f64"}) \cup S("qt", "km", {"km"}, Wide) \cup S("qt", "km", {"ft", "degC", "ft/s"}, {"f32", "i32", "u64"})
       \cup S("qb", "km", {"m", "ft", "degC"}, {"f64"}) \cup S("ld", "km", {"km", "ft"}, {"f64"}) \cup S("lt", "km", {"km"}, Wide) \cup S("lb", "km", {"km", "deg"}, {"f64"})
       \cup S("vd", "km", {"m", "ft"}, {"f64"}) \cup S("vd", "K", {"degC", "degF"}, {"f64"}) \cup S("vt", "km", {"m", "ft"}, Wide) \cup S("vt", "K", {"degC"}, {"f32", "i64"}) \cup S("vb", "m/s", {"ft/s", "mi/h"}, {"f64", "i32"})
       \cup S("rd", "km", {"m"}, {"f64"}) \cup S("rt", "km", {"m"}, Wide) \cup S("fj", "km", {"m"}, {"f64"}) \cup S("fs", "km", {"m"}, {"f64"})
Chunk == 60
Chunks(all) == (Len(all) + Chunk - 1) \div Chunk
Part(all, n) == SubSeq(all, (n - 1) * Chunk + 1, IF n * Chunk > Len(all) THEN Len(all) ELSE n * Chunk)
Sweep(z) ==
    LET ns == Part(IF z.k = "let" THEN Lower ELSE Upper, z.n)
        names == [i \in DOMAIN ns |-> [x |-> ns[i], v |-> 1 + (i % 9), k |-> z.k]]
        e == [k |-> "sum", of |-> z.k, xs |-> names]
    IN [c |-> 0, site |-> z.site, s |-> Kind(z.site.m), names |-> names, alias |-> "ZzA", brand |-> "ZzC", e |-> e, v |-> Eval(e, Env(names)).v, x |-> FALSE]
Sweeps == UNION {[site : Places, k : {k}, n : 1 .. Chunks(IF k = "let" THEN Lower ELSE Upper)] : k \in {"let", "const", "type"}}
(* The macro of a declarator module means the same from every module that can *)
(* name it: what is declared (scales, a brand, both) and where it is used.    *)
Elsewhere == [decl : {"scales", "brand", "both"}, from : {"path-root", "path-crate", "path-super", "path-renamed", "imported"}]
Far(z) == LET e == [k |-> "tick", n |-> 5] IN
    [c |-> 0, far |-> z, site |-> [m |-> "far", u |-> "km", t |-> "f64", base |-> "km"], s |-> "n", names |-> <<>>, alias |-> "ZzA", brand |-> "ZzC", e |-> e, v |-> Eval(e, Env(<<>>)).v, x |-> FALSE]
VARIABLES zC
Init == \/ zC \in [c : 1 .. N] \/ zC \in Sweeps \/ zC \in Elsewhere
Done(z) == "done" \in DOMAIN z
One(z) == IF "c" \in DOMAIN z THEN Job(z.c) ELSE IF "decl" \in DOMAIN z THEN Far(z) ELSE Sweep(z)
Next == ~Done(zC) /\ zC' = (zC @@ [done |-> TRUE]) /\ PrintT("@@" \o ToJson(One(zC)))
(* every name is bound, and every number stays small *)
Sane == ~Done(zC) => LET j == One(zC) IN j.v \in -100000 .. 100000
=============================================================================
