------------------------------ MODULE Features ------------------------------
(* Feature selections of the library: what each of them offers, and that the   *)
(* algebra is the same in all of them.                                         *)
EXTENDS Quantity
AllFeatures == {"std", "alloc", "serde"}
(* a selected feature brings others along *)
Brings(f) == CASE f = "std" -> {"alloc"} [] f = "serde" -> {"alloc"} [] OTHER -> {}
Closure(F) == F \cup UNION {Brings(f) : f \in F}
(* what a program may use, and the features that takes; everything else is core *)
Takes == [display |-> {"alloc"}, debug |-> {"alloc"}, debugfmt |-> {"alloc"}, fmt |-> {"serde"}, serialize |-> {"serde"}, deserialize |-> {"serde"},
          fromjson |-> {"serde"}, fromstring |-> {"serde"},
          declare |-> {}, brand |-> {}, method |-> {}, literal |-> {}, unit |-> {}, value |-> {}, valueint |-> {}, sum |-> {}, product |-> {}, assign |-> {}, compare |-> {},
          rescale |-> {}, rescaleint |-> {}, rescalemacro |-> {}, erase |-> {}, angle |-> {}, generic |-> {}, local |-> {}, localint |-> {}, copy |-> {}]
Offers(F, o) == Takes[o] \subseteq Closure(F)
(* two answers to one operation in two selections *)
Panics(o) == o.v.k = "panic"
Alike(a, b) == IF Panics(a) \/ Panics(b) THEN Panics(a) /\ Panics(b) ELSE a.d = b.d /\ a.s = b.s /\ a.t = b.t /\ a.b = b.b /\ a.v = b.v
=============================================================================
