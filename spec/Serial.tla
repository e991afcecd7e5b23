------------------------------- MODULE Serial -------------------------------
(* Reading quantities from JSON documents and from text.                       *)
EXTENDS UnitText

(* ---- JSON over tokens: [k |-> "p", x] punctuation, [k |-> "str", c |-> content],   *)
(* [k |-> "num", v |-> index], [k |-> "lit"] true/false/null, [k |-> "junk"]   *)
JT(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE [k |-> "end", x |-> ""]
JIs(ts, i, x) == JT(ts, i).k = "p" /\ JT(ts, i).x = x
JFail == [ok |-> FALSE, i |-> 0, v |-> 0]
RECURSIVE JValue(_, _), JFields(_, _, _), JItems(_, _)
(* a value: [k, i] of its first token; objects carry their fields *)
JValue(ts, i) ==
    LET t == JT(ts, i) IN
    CASE t.k \in {"str", "num", "lit"} -> [ok |-> TRUE, i |-> i + 1, v |-> [k |-> t.k, at |-> i]]
      [] JIs(ts, i, "{") -> (IF JIs(ts, i + 1, "}") THEN [ok |-> TRUE, i |-> i + 2, v |-> [k |-> "obj", f |-> <<>>]] ELSE JFields(ts, i + 1, <<>>))
      [] JIs(ts, i, "[") -> (IF JIs(ts, i + 1, "]") THEN [ok |-> TRUE, i |-> i + 2, v |-> [k |-> "arr"]] ELSE JItems(ts, i + 1))
      [] OTHER -> JFail
JFields(ts, i, f) ==
    IF JT(ts, i).k # "str" \/ ~JIs(ts, i + 1, ":") THEN JFail
    ELSE LET v == JValue(ts, i + 2)  g == Append(f, [n |-> ts[i].c, v |-> v.v]) IN
         IF ~v.ok THEN JFail
         ELSE IF JIs(ts, v.i, "}") THEN [ok |-> TRUE, i |-> v.i + 1, v |-> [k |-> "obj", f |-> g]]
         ELSE IF JIs(ts, v.i, ",") THEN JFields(ts, v.i + 1, g) ELSE JFail
JItems(ts, i) ==
    LET v == JValue(ts, i) IN
    IF ~v.ok THEN JFail
    ELSE IF JIs(ts, v.i, "]") THEN [ok |-> TRUE, i |-> v.i + 1, v |-> [k |-> "arr"]]
    ELSE IF JIs(ts, v.i, ",") THEN JItems(ts, v.i + 1) ELSE JFail
JParse(ts) == LET r == JValue(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE JFail

(* a document is a quantity when it is an object with exactly one numeric      *)
(* "value" and one textual "unit"                                              *)
Named(f, n) == SelectSeq(f, LAMBDA x : x.n = n)
Document(ts) ==
    LET r == JParse(ts) IN
    IF ~r.ok THEN [ok |-> FALSE]
    ELSE IF r.v.k # "obj" THEN [ok |-> FALSE]
    ELSE LET vs == Named(r.v.f, "value")  us == Named(r.v.f, "unit") IN
         IF Len(vs) = 1 /\ Len(us) = 1 /\ vs[1].v.k = "num" /\ us[1].v.k = "str"
         THEN [ok |-> TRUE, num |-> vs[1].v.at, unit |-> us[1].v.at] ELSE [ok |-> FALSE]

(* ---- the verdict: target type [d, s]; number x (k "i"/"f") written, unit    *)
(* tokens u; result r: [ok |-> accepted, v |-> number]                         *)
RealOK(x) == IsNum(x)
Converted(mn, s, x, v) ==
    LET y == Stored(mn, s, x)  err == QMul(Terms(mn, s, x), P2(-(IF DTol(mn, "f64") < 42 THEN DTol(mn, "f64") ELSE 42))) IN
    \* numbers whose value, or an intermediate product, leaves the range of f64 are unspecified
    ~InRange("f64", x) \/ ~InRange("f64", QMul(x, MagQ(mn))) \/ ~InRange("f64", y) \/ ~InRange("f64", QDiv(MagQ(mn), ScaleQ(s)))
    \/ (IsNum(v) /\ Within(NumQ(v), y, err))
Outcome(d, s, x, u, r) ==
    LET m == Reading(u) IN
    CASE m.st = "bad" -> (IF r.ok THEN "a unit that does not exist or is malformed is accepted" ELSE "")
      [] m.st = "bad?" -> ""
      [] m.st = "dims" -> (IF r.ok /\ Len(m.d) > 0 /\ m.d # d THEN "a unit of another dimension is accepted" ELSE "")
      [] m.d # d -> (IF r.ok THEN "a unit of another dimension is accepted" ELSE "")
      [] OTHER -> (IF ~r.ok THEN "well-formed input of the right dimension is refused"
                   ELSE IF ~Converted(m.mn, s, x, r.v) THEN "number" ELSE "")
=============================================================================
