------------------------------ MODULE EraseGen ------------------------------
EXTENDS Erase, Rand, Json
CONSTANTS Seed, PerPair, NReject
NoD == VZero(8)
Angle(a) == [NoD EXCEPT ![8] = a]
Sc(h) == LET m == Pick(h, 9)  ax == 1 + Pick(h \div 13, 4) IN
    CASE m \in {5, 6} -> [j \in 1 .. 4 |-> IF j = ax THEN Choose(IF j = 4 THEN <<1, -1, 1, 2>> ELSE <<1, -1, 2, -3, 5>>, h \div 5) ELSE 0]
      [] m \in {7, 8} -> [j \in 1 .. 4 |-> IF Pick(h \div (j * 7), 2) = 0 THEN 0 ELSE Choose(IF j = 4 THEN <<1, -1>> ELSE <<1, -1, 2, -2, 4>>, h \div 5 + j)]
      [] m = 0 -> Zero4
      [] m = 1 -> <<-2, -2, -1, 1>>                       \* degrees
      [] m = 2 -> LET e == Between(h \div 5, -9, 9) IN <<e, 0, e, 0>>
      [] m = 3 -> <<Between(h \div 5, -6, 6), Between(h \div 70, -3, 3), Between(h \div 11, -4, 4), 0>>
      [] m = 4 -> <<Between(h \div 5, -6, 6), Between(h \div 70, -3, 3), Between(h \div 11, -4, 4), Between(h \div 3, -2, 2)>>
Vals(t, s, h) ==
    LET big(x) == [s |-> x.s, m |-> x.n]
        r == Q(1, FNum(s), FDen(s))
        cands == <<Q0, Q1, QInt(7), QInt(12), QInt(90), QInt(100), QInt(180), QInt(-3), QInt(Between(h, 1, 30000)), QBig(r.d), QMul(QBig(r.d), QInt(3)), QAdd(QBig(r.d), Q1), MaxOf(t), MinOf(t), QTrunc(QDiv(MaxOf(t), QInt(1000)))>>
        ok == SelectSeq(cands, LAMBDA x : Fits(t, x))
    IN IF IsFloat(t) THEN <<[n |-> 0, e |-> 0], [n |-> 1, e |-> 0], [n |-> 90, e |-> 0], [n |-> -45, e |-> -1], [n |-> Between(h, 1, 900000) * 2 + 1, e |-> -12], [n |-> Between(h, 1, 90000) * 2 + 1, e |-> 9],
                            [n |-> Between(h, 1, 90000) * 2 + 1, e |-> -30], [n |-> 25, e |-> 0]>>
                       \o [i \in 1 .. 4 |-> [sp |-> <<"-0", "inf", "-inf", "nan">>[i]]]
       ELSE [i \in DOMAIN ok |-> big(ok[i])]
B(h) == IF Pick(h, 6) = 0 THEN "B1" ELSE "()"
(* jobs: c = <<family, i, j, k>> *)
Job(c) ==
    LET h == H(<<Seed, c[2], c[3], c[4], c[1]>>)  h2 == H(<<Seed, c[4], c[2], c[3], 9>>) s == Sc(h) IN
    CASE c[1] = 1 ->        \* dimensionless, every pair of types
           LET t == Types[c[2]] IN [q |-> [d |-> NoD, s |-> s, t |-> t, b |-> "()"], to |-> [k |-> "num", t |-> Types[c[3]]], vals |-> Vals(t, s, h)]
      [] c[1] = 2 ->        \* angles, every power and a pair of types
           LET t == Types[c[2]] IN [q |-> [d |-> Angle(c[4]), s |-> s, t |-> t, b |-> "()"], to |-> [k |-> "num", t |-> Types[c[3]]], vals |-> Vals(t, s, h)]
      [] c[1] = 3 ->        \* compound quantities lose their angle
           LET t == Types[c[2]]
               d == [j \in 1 .. 8 |-> IF j = 8 THEN c[4] ELSE IF c[3] = 1 THEN 0 ELSE Between(H(<<Seed, c[2], c[3], c[4], j>>), -3, 3)]
               q == [d |-> d, s |-> s, t |-> t, b |-> "()"]
           IN [q |-> q, to |-> [k |-> "q", q |-> [q EXCEPT !.d = [@ EXCEPT ![8] = 0]]], vals |-> Vals(t, s, h)]
      [] c[1] = 4 ->        \* other dimensions do not become numbers
           LET t == Types[1 + Pick(h, 14)]  j == 1 + (c[2] % 7)
               d == [NoD EXCEPT ![j] = Choose(<<1, -1, 2, -2, 3>>, h2), ![8] = Choose(<<0, 0, 1, -1, 2>>, h2 \div 5)]
               u == IF c[3] = 1 THEN t ELSE Types[1 + Pick(h2, 14)]
           IN [q |-> [d |-> d, s |-> (IF c[4] = 0 THEN Zero4 ELSE s), t |-> t, b |-> "()"], to |-> [k |-> "num", t |-> u], vals |-> <<>>]
      [] c[1] = 5 ->        \* erasure changes nothing but the angle
           LET t == Choose(<<"f32", "f64", "i16", "i32", "i64", "i128", "isize">>, h)
               d == [j \in 1 .. 8 |-> IF j = 8 THEN Choose(<<1, -1, 2, -3, 9>>, h2) ELSE Between(H(<<Seed, c[2], c[3], c[4], j>>), -2, 2)]
               q == [d |-> d, s |-> s, t |-> t, b |-> (IF c[3] > 14 THEN "B1" ELSE "()")]
               z == [q EXCEPT !.d = [@ EXCEPT ![8] = 0]]
               r == CASE c[3] <= 7 -> [z EXCEPT !.d = [@ EXCEPT ![c[3]] = @ + 1]]
                      [] c[3] \in 8 .. 11 -> [z EXCEPT !.s = [@ EXCEPT ![c[3] - 7] = @ + Choose(<<1, -1>>, h)]]
                      [] c[3] = 12 -> [z EXCEPT !.t = IF @ = "f64" THEN "f32" ELSE "f64"]
                      [] c[3] = 13 -> [z EXCEPT !.b = "B1"]
                      [] c[3] = 14 -> [z EXCEPT !.d = [@ EXCEPT ![8] = -q.d[8]]]
                      [] c[3] = 15 -> [z EXCEPT !.b = "()"]
                      [] c[3] = 16 -> [z EXCEPT !.b = "B2"]
           IN [q |-> q, to |-> [k |-> "q", q |-> r], vals |-> <<>>]
VARIABLES zC
Init == \/ zC \in {1} \X (1 .. 14) \X (1 .. 14) \X (1 .. PerPair)
        \/ zC \in {<<2, i, j, a>> : i \in 1 .. 14, j \in 1 .. 14, a \in (-MaxAngle - 1) .. MaxAngle + 1} /\ zC[4] # 0
           /\ (Offered([q |-> [d |-> Angle(zC[4]), s |-> Zero4, t |-> Types[zC[2]], b |-> "()"], to |-> [k |-> "num", t |-> Types[zC[3]]]]) \/ FALSE)
        \/ zC \in {<<3, i, j, a>> : i \in 1 .. 14, j \in 1 .. 3, a \in -MaxAngle .. MaxAngle} /\ zC[4] # 0 /\ Types[zC[2]] \in AngleSame
        \/ zC \in {4} \X (1 .. NReject) \X {1, 2} \X {0, 1}
        \/ zC \in {5} \X (1 .. NReject) \X (1 .. 16) \X {0}
Next == /\ zC[1] > 0 /\ zC' = [zC EXCEPT ![1] = -@]
        /\ PrintT("@@" \o ToJson([c |-> zC] @@ Job(zC)))
=============================================================================
