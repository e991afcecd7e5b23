------------------------------- MODULE LspGen -------------------------------
(* Generates sessions: who sends what, in which header form, cut into which    *)
(* chunks, in which interleaving, and how the session ends.                    *)
EXTENDS Rand, TLC, Json
CONSTANTS Seed, Sessions, Most

Forms == <<"plain", "plain", "plain", "plain", "type-after", "type-before", "lower", "upper", "nospace", "spaces", "extra", "charset">>
OutKinds == <<"request", "request", "notify", "text", "response", "nulls", "pretty", "batch", "units", "nested", "notjson", "notutf8", "empty", "numbers", "escapes", "deep">>
InKinds == <<"response", "notify", "nulls", "pretty", "batch", "nested", "notjson", "notutf8", "empty", "numbers", "escapes", "deep", "text",
             "hover-plain", "hover-words", "hover-words", "hover-null", "hover-foreign", "hints-plain", "hints-words", "completion", "diagnostics", "error",
             "hover-units", "hover-units", "hover-units", "hover-list", "hover-strings", "hover-string", "hints-units", "hints-units", "hint-resolve", "hint-resolve", "hover-generic">>
Sizes == <<0, 0, 0, 0, 0, 0, 40, 700, 8100, 8192, 8193, 16384, 65400, 65536, 70000, 300000>>
Places == <<"first", "name", "colon", "digits", "cr", "lf", "blank", "body", "body", "inside", "inside", "letter", "last", "last">>
Cuts(h) == [k \in 1 .. Pick(h, 4) |-> [at |-> Choose(Places, H(<<h, k>>)), pause |-> Pick(H(<<h, k, 2>>), 3) # 0, x |-> Pick(H(<<h, k, 3>>), 1000)]]
Msg(d, h) == [d |-> d, form |-> Choose(Forms, H(<<h, 1>>)), kind |-> Choose(IF d = "out" THEN OutKinds ELSE InKinds, H(<<h, 2>>)),
              size |-> Choose(Sizes, H(<<h, 3>>)), seed |-> H(<<h, 4>>), cuts |-> Cuts(H(<<h, 5>>)), glue |-> Pick(H(<<h, 6>>), 3) = 0]
Closings == <<"editor", "editor", "editor", "server", "server", "editor-late", "server-busy", "crash", "mute", "deaf", "cut-out", "cut-in">>
Upsets == <<"none", "none", "none", "none", "stderr-close", "stderr-bytes", "stderr-flood", "hold-editor", "hold-server", "hold-both">>
Tails == <<"none", "none", "none", "none", "none", "none", "no-length", "bad-length", "negative", "overflow", "garbage", "blank-first">>
Session(n) == LET h == H(<<Seed, n, 131>>)  c == Choose(Closings, h) IN
    [n |-> n,
     closing |-> IF n % 25 = 0 THEN "mute" ELSE IF c = "mute" THEN "editor" ELSE c,
     upset |-> Choose(Upsets, H(<<h, 8>>)),
     tails |-> [out |-> Choose(Tails, H(<<h, 9>>)), in |-> Choose(Tails, H(<<h, 10>>))],
     verbose |-> Pick(H(<<h, 11>>), 3), 
     msgs |-> [k \in 1 .. 1 + Pick(H(<<h, 12>>), Most) |-> Msg(IF Pick(H(<<h, 13, k>>), 2) = 0 THEN "out" ELSE "in", H(<<h, 14, k>>))],
     late |-> [k \in 1 .. Pick(H(<<h, 15>>), 3) |-> Msg("in", H(<<h, 16, k>>))]]
VARIABLE zN
Init == zN \in 1 .. Sessions
Next == zN > 0 /\ zN' = -zN /\ PrintT("@@" \o ToJson(Session(zN)))
=============================================================================
