------------------------------- MODULE Macro --------------------------------
(* What the argument of a macro means: an ordinary expression of the caller,   *)
(* evaluated once, from left to right, with the caller's names.  Eval gives    *)
(* its number, the numbers logged while it is evaluated, in their order, and   *)
(* whether it leaves the surrounding function (then v is what it leaves with). *)
EXTENDS Naturals, Integers, Sequences, TLC

Ok(v, log) == [v |-> v, log |-> log, x |-> FALSE]
After(log, r) == [r EXCEPT !.log = log \o @]
Bind(x, v, env) == (x :> v) @@ env

RECURSIVE SumOf(_, _)
SumOf(xs, env) == IF xs = <<>> THEN 0 ELSE env[Head(xs).x] + SumOf(Tail(xs), env)
RECURSIVE Eval(_, _)
Eval(e, env) ==
    CASE e.k = "lit"   -> Ok(e.n, <<>>)
      [] e.k = "tick"  -> Ok(e.n, <<e.n>>)
      [] e.k = "var"   -> Ok(env[e.x], <<>>)
      [] e.k = "cst"   -> Eval(e.b, Bind(e.x, e.n, env))
      [] e.k = "flag"  -> After(<<e.n>>, Eval(IF e.on THEN e.a ELSE e.b, env))
      [] e.k = "leave" -> (IF e.on THEN After(<<e.n>>, LET r == Eval(e.a, env) IN [r EXCEPT !.x = TRUE]) ELSE After(<<e.n>>, Eval(e.b, env)))
      [] e.k = "sum"   -> Ok(SumOf(e.xs, env), <<>>)          \* of variables, or of numbers of types, so named
      [] e.k = "try"   -> [v |-> e.n, log |-> <<e.n>>, x |-> e.on]
      [] OTHER ->
         LET ra == Eval(e.a, env) IN
         IF ra.x THEN ra
         ELSE CASE e.k = "neg"   -> Ok(-ra.v, ra.log)
                [] e.k = "ann"   -> ra
                [] e.k = "via"   -> ra                        \* through a nested pair of macros and back
                [] e.k = "twice" -> Ok(2 * ra.v, Append(ra.log, e.n))
                [] e.k = "same"  -> Ok(ra.v, Append(ra.log, e.n))
                [] e.k = "let"   -> After(ra.log, Eval(e.b, Bind(e.x, ra.v, env)))
                [] OTHER ->
                   LET rb == Eval(e.b, env) IN
                   IF rb.x THEN After(ra.log, rb)
                   ELSE Ok(IF e.k = "add" THEN ra.v + rb.v ELSE ra.v * rb.v, ra.log \o rb.log)
Env(names) == [x \in {names[i].x : i \in DOMAIN names} |-> LET i == CHOOSE i \in DOMAIN names : names[i].x = x IN names[i].v]
=============================================================================
