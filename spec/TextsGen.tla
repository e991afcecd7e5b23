------------------------------ MODULE TextsGen ------------------------------
(* Texts with quantity types in them, and the functions they are given to.     *)
EXTENDS Texts, Rand, Json
CONSTANTS Seed, NTexts

(* ---- types ---- *)
RDim(h) == [j \in 1 .. 8 |-> IF Pick(H(<<h, j, 1>>), 3) = 0 THEN Between(H(<<h, j>>), -4, 4) ELSE 0]
Extreme(h) == Choose(<<32767, -32767, 1000, -1001, 128, -129, 12, -11, 10, 255>>, h)
GDim(h) == LET m == Pick(h, 10) IN
    CASE m \in 0 .. 2 -> Catalogue[Choose(ListedSeq, H(<<h, 31>>))].d
      [] m = 3 -> [j \in 1 .. 8 |-> IF j = 1 + Pick(H(<<h, 32>>), 8) THEN Choose(<<1, 1, 2, -1, -2, 3, 5, -7>>, H(<<h, 33>>)) ELSE 0]
      [] m = 4 -> VZero(8)
      [] m = 5 -> [j \in 1 .. 8 |-> IF Pick(H(<<h, j, 34>>), 4) = 0 THEN Extreme(H(<<h, j, 35>>)) ELSE 0]
      [] OTHER -> RDim(H(<<h, 36>>))
GScale(h) == LET m == Pick(h, 8)  k == Between(H(<<h, 41>>), -40, 40) IN
    CASE m \in 0 .. 2 -> <<0, 0, 0, 0>> [] m \in 3 .. 4 -> <<k, 0, k, 0>>
      [] m = 5 -> Choose(<<<<2, 1, 1, 0>>, <<4, 2, 2, 0>>, <<7, 3, 2, 0>>, <<-2, -2, -1, 1>>, <<1, 0, 0, 1>>, <<0, 0, 0, 1>>, <<1, 0, 0, 0>>, <<3, 0, 4, 0>>, <<0, 3, 0, 0>>, <<0, 0, -1, 0>>, <<300, 0, 300, 0>>, <<-290, 0, -290, 0>>>>, H(<<h, 42>>))
      [] m = 6 -> [j \in 1 .. 4 |-> Between(H(<<h, j, 43>>), IF j = 4 THEN -3 ELSE -60, IF j = 4 THEN 3 ELSE 60)]
      [] OTHER -> [j \in 1 .. 4 |-> IF Pick(H(<<h, j, 44>>), 2) = 0 THEN 0 ELSE Between(H(<<h, j, 45>>), IF j = 4 THEN -1 ELSE -9, IF j = 4 THEN 1 ELSE 9)]
Some8(h, n) == SelectSeq([j \in 1 .. n |-> j], LAMBDA j : Pick(H(<<h, j, 51>>), 3) = 0)
All(n) == [j \in 1 .. n |-> j]
X(s) == [k |-> "x", x |-> s]
WForms == <<"named", "named", "short", "short", "skip", "default", "whole">>
Plain == <<"f64", "f64", "f64", "f32", "i32", "u8", "i128", "usize", "Complex<f64>", "Vec<f64>", "[f64; 3]", "(f64, f32)", "Option<fn(f64) -> f64>", "_", "Rc<dyn Fn(u8, u8) -> [u8; 2]>", "Wrapping<i64>">>
Brands == <<"", "", "", "()", "MyBrand", "crate::brands::Foo", "Wrapped<u8>", "lib::Foo<(), u8>", "Grad{Theta}">>
RECURSIVE GType(_, _, _)
GType(h, known, depth) ==
    LET m == IF known THEN 99 ELSE Pick(H(<<h, 1>>), 12)
        ud == CASE m \in 0 .. 1 -> Some8(h, 8) [] m = 2 -> All(8) [] m = 3 -> <<1 + Pick(H(<<h, 2>>), 8)>> [] OTHER -> <<>>
        us == CASE m \in {0, 2} -> (IF Pick(H(<<h, 3>>), 2) = 0 THEN All(4) ELSE Some8(H(<<h, 4>>), 4)) [] m = 4 -> Some8(H(<<h, 5>>), 4) [] m = 5 -> All(4) [] OTHER -> <<>>
        d == Hide(GDim(H(<<h, 6>>)), ud)  s == Hide(GScale(H(<<h, 7>>)), us)
        br == Choose(Brands, H(<<h, 8>>))
        nest == depth > 0 /\ Pick(H(<<h, 9>>), 8) = 0
        omit == ~nest /\ br = "" /\ Pick(H(<<h, 10>>), 5) = 0
        q == [d |-> d, s |-> s, ud |-> ud, us |-> us, fs |-> IF us # <<>> /\ us = All(4) /\ Pick(h, 4) # 0 THEN "named" ELSE Choose(WForms, H(<<h, 11>>)), fd |-> Choose(WForms, H(<<h, 12>>)),
              sep |-> Choose(<<", ", ", ", ", ", ",">>, H(<<h, 13>>)), h |-> Pick(h, 9)]
        t == IF omit THEN <<>> ELSE IF nest THEN <<X("Vec<")>> \o <<GType(H(<<h, 14>>), known, 0)>> \o <<X(">")>> ELSE <<X(Choose(Plain, H(<<h, 15>>)))>>
    IN [k |-> "q", need |-> "must", head |-> TypeHead(q), sep |-> q.sep, d |-> d, s |-> s, ud |-> ud, us |-> us, t |-> t, omit |-> omit, b |-> br]

(* ---- the words around them ---- *)
Frames == << <<"let x: ", " = 5.0;">>, <<"{esc}[1m", "{esc}[0m">>, <<"{esc}[38;5;12m`", "`{esc}[m">>, <<"expected `", "`, found `{float}`">>, <<"Option<", ">">>, <<"PIDController<", ">">>, <<"fn f(a: ", ") -> f64">>, <<"&mut ", "">>, <<"(é → ", ")">>, <<"\"", "\"">>,
             <<"Vec<(u8, ", ")>">>, <<"[", "; 3]">>, <<"", "">>, <<"impl Fn(", ") -> bool">>, <<"fn() -> ", "">>, <<"crate::quantity::", "">>, <<"HashMap<String, Vec<", ">>">>, <<"dyn Trait<Item = ", ">">>, <<"a > b; x as ", " > c">>, <<"{", "}">>, <<"note: expected struct `", "`">>, <<"\\", "\\n">>, <<"<", " as Add<f64>>::Output">> >>
Asides == <<"", " ", "some words", "Quantity", "the Quantity is ", "a < b, c > d", "  |     ^^^^ ", "µ·Ω²⁻¹ ˀ", "日本語", "Scale<_2<1>>, Dimension<_L<1>>", "1 km/h", "x: String", "Quantity<1, 0, 9223372036854775807, f64>", "MyQuantity<Scale<_2<0>>, Dimension<_L<1>>, f64>",
            "Quantity<ScaleFactor<_2<1>>, Dimension<_L<1>>>", "Quantity<Scale<_2<1>>, Dimensions<_L<1>>>", "Quantity<Scale<_2<1>>>", "Quantity<Scale<_2<99999>>, Dimension<_L<1>>>", "Quantity<Scale<_7<1>>, Dimension<_L<1>>, f64>", "Quantity<Scale<_2<1>>, Dimension<_L<1>>, f64, (), u8>",
            "Quantity<Scale, Dimension<_L<LENGTH>>, f64>", "Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<MASS>, _L<LENGTH>>, T, Brand>", "_Quantity<Scale, Dimension<_L<1>>>", "é_Quantity<Scale, Dimension>", "Quantity<f64>", "Quantity <Scale, Dimension>", "->", "'", "¹²", "Quantity<", "Quantity<Scale", "<<<", "(((", "]", ">>",
            "Quantity<Scale<_2<1.5>>, Dimension<_L<1>>>", "Quantity<Scale<_3<1>, _2<1>>, Dimension<_L<1>>>", "Quantity<Scale<_2<1>>, Dimension<_L<1>> ;", "Quantity<Scale<_2<->>, Dimension<_L<1>>>" >>
(* definitions and implementations; a hover text with both is simplified in other ways *)
Defs == <<"pub struct Quantity<Scale, D, T = f64, Brand = ()>", "T = f64", "type T = f64;">>
Impls == <<"impl<const M: i16> Add for Quantity<Scale<_2<P2>>, Dimension<_M<M>>, T>", "impl<T> Mul<f64> for f64 where T: Copy {">>
Piece(h, known, words) ==
    LET f == Choose(Frames, H(<<h, 21>>)) IN
    IF Pick(H(<<h, 22>>), 3) = 0 THEN <<X(Choose(words, H(<<h, 23>>))), X(" ")>>
    ELSE <<X(f[1]), GType(H(<<h, 24>>), known, 1), X(f[2]), X(" ")>>
RECURSIVE Pieces(_, _, _, _)
Pieces(h, n, known, words) == IF n = 0 THEN <<>> ELSE Piece(H(<<h, n, 25>>), known, words) \o Pieces(h, n - 1, known, words)
SetNeed(ps, w) == [i \in DOMAIN ps |-> IF ps[i].k = "q" THEN [ps[i] EXCEPT !.need = w] ELSE ps[i]]
(* characters that tools like to trim, drop or change, at either end of a line *)
Odd == <<"{bom}", "{nul}", "{esc}[1;31m", "{tab}", "    ", "{nbsp}", "{ls}", "{zwsp}", "{ff}", "{vt}", "{nel}", "{wide}", "{emoji}", "{bom}{bom}", "\"", "{tab}{tab}">>
Edge(h) == IF Pick(H(<<h, 81>>), 3) = 0 THEN <<X(Choose(Odd, H(<<h, 82>>)))>> ELSE <<>>
Line(h, most) == Edge(H(<<h, 83>>)) \o Pieces(h, Pick(H(<<h, 26>>), most + 1), FALSE, Asides) \o Edge(H(<<h, 84>>))
Code(h, most, words) == Pieces(h, 1 + Pick(H(<<h, 27>>), most), FALSE, Asides \o words)
Ending(h) == Choose(<<"\n", "\n", "\n", "\r\n", "\r\n", "">>, h)
(* markdown: prose and code in turn *)
RECURSIVE Sections(_, _, _, _)
Sections(h, n, decl, words) == IF n = 0 THEN <<>> ELSE
    SetNeed(Line(H(<<h, n, 61>>), 2), "may") \o <<X(Choose(<<"\n```rust\n", "```rust\n", "\n\n```rust\r\n", "\n---\n```rust,ignore\n", "\n```rust ">>, H(<<h, n, 62>>)))>>
    \o (IF decl THEN <<X("let x: "), GType(H(<<h, n, 63>>), TRUE, 1), X(";\n")>> ELSE <<>>)
    \o Code(H(<<h, n, 64>>), 2, words) \o <<X("\n```")>> \o Sections(h, n - 1, FALSE, words)
Markdown(h, decl) == Sections(h, 1 + Pick(H(<<h, 65>>), 3), decl, IF Pick(H(<<h, 60>>), 3) = 0 THEN Defs ELSE Impls) \o SetNeed(Line(H(<<h, 66>>), 2), "may")
(* lines: each with its ending *)
Lines(h, n) == [i \in 1 .. n |-> [ps |-> Line(H(<<h, i, 67>>), 3), bad |-> Pick(H(<<h, i, 69>>), 8) = 0, end |-> IF i = n THEN Ending(H(<<h, i, 68>>)) ELSE Choose(<<"\n", "\n", "\r\n">>, H(<<h, i, 68>>))]]
(* hints *)
Label(h) == LET m == Pick(H(<<h, 71>>), 6) IN
    CASE m \in 0 .. 3 -> <<X(": "), GType(H(<<h, 72>>), FALSE, 1)>>
      [] m = 4 -> <<X(": "), X(Choose(<<"Option<", "PIDController<", "&mut ", "crate::", "impl Fn(", "(">>, H(<<h, 73>>))), GType(H(<<h, 74>>), FALSE, 1), X(Choose(<<">", ", ", ")", "", "…", ">>">>, H(<<h, 75>>)))>>
      [] OTHER -> <<X(": (")>> \o <<GType(H(<<h, 76>>), FALSE, 1), X(", "), GType(H(<<h, 77>>), FALSE, 0), X(")")>>
Hint(h) == [ps |-> Label(h), plain |-> Pick(H(<<h, 78>>), 8) = 0, cut |-> H(<<h, 79>>), edits |-> Pick(H(<<h, 80>>), 5), position |-> TRUE]
BitsT == <<"Quantity<", "Quantity<Scale", "Quantity", "Scale", "Scale<", "Dimension", "Dimension<", "_2<", "_L<", "_{Theta}<", "_", "<", ">", ">>", "->", ",", ", ", "(", ")", "[", "]", "1", "-", "99999", "32767", "-32768", "```rust", "```", "\n", "\r\n", "impl<", "Add for", "Sub for", "Mul<f64> for", "Div<f64> for", "Mul for", "Div for", "for Quantity<", "for f64", "where ", "where\n", "{", "}", ": ", ":", "=", "T = f64", "f64", "fn mul(self, other: f64)", "fn mul(self, other: Quantity<", "fn div(self, other: ",
          "é", "日本", "µ", "²", "⁻¹", "ˀ", "Quantity<Scale, Dimension", "Quantity<Scale<_2<1>>, Dimension<_L<1>>, ", " ", "\t", "\"", "\\", "impl Add for", "MyQuantity<Scale", "unit!(", "Trait", "Output = ", "const ">>
Garbage(h) == [i \in 1 .. 1 + Pick(H(<<h, 91>>), 14) |-> X(Choose(BitsT, H(<<h, 92, i>>)))]

Fs == <<"types", "inlay", "line", "output", "output", "pretty", "pretty", "hover", "hover", "hover", "hovers", "hoverless", "original", "hints", "hint", "hint", "hint", "garbage", "garbage">>
Request(n) ==
    LET h == H(<<Seed, n, 171>>)  f == Choose(Fs, 3 * n) IN
    [n |-> n, f |-> f, verbose |-> Pick(H(<<h, 2>>), 2) = 0, raw |-> Pick(H(<<h, 3>>), 3) = 0,
     of |-> Choose(<<"types", "inlay", "original", "extract", "hover", "hovers", "line", "output">>, H(<<h, 4>>)),
     decl |-> Pick(H(<<h, 5>>), 2) = 0,
     ps |-> CASE f \in {"types", "inlay", "line"} -> Line(H(<<h, 6>>), 5)
              [] f \in {"hover", "original"} -> Markdown(H(<<h, 7>>), Pick(H(<<h, 5>>), 2) = 0)
              [] f \in {"hovers", "hoverless"} -> Line(H(<<h, 8>>), 4)
              [] f = "garbage" -> Garbage(H(<<h, 9>>)) [] OTHER -> <<>>,
     lines |-> IF f \in {"output", "pretty"} THEN Lines(H(<<h, 10>>), 1 + Pick(H(<<h, 11>>), 4)) ELSE <<>>,
     hints |-> IF f \in {"hint", "hints"} THEN [i \in 1 .. (IF f = "hint" THEN 1 ELSE 1 + Pick(H(<<h, 12>>), 3)) |-> Hint(H(<<h, 13, i>>))] ELSE <<>>]
VARIABLE zN
Init == zN \in 1 .. NTexts
Next == zN > 0 /\ zN' = -zN /\ PrintT("@@" \o ToJson(Request(zN)))
=============================================================================
