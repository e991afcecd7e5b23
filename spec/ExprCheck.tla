----------------------------- MODULE ExprCheck ------------------------------
(* Judges what the implementation reads in a unit expression.                  *)
EXTENDS UnitExpr, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

RECURSIVE Prod(_, _, _)
Prod(c, at, i) == IF i = 0 THEN D1 ELSE LET v == at[c[i].w].cf IN DMul(DPow([m |-> v.m, e |-> v.e], c[i].n), Prod(c, at, i - 1))
Factor(m, e) == LET c == SelectSeq(m.cfs, LAMBDA x : ~QEq(NumQ(e.at[x.w].cf), Q1) /\ x.n # 0) IN Prod(c, e.at, Len(c))
FactorOK(m, e) ==
    LET x == Factor(m, e) IN
    IF DBits(x) > 900 \/ DBits(x) < -900 THEN TRUE             \* outside the range of f64: unspecified
    ELSE IsNum(e.cf) /\ Close(NumQ(e.cf), DQ(x), 36)
HasFactor(m, e) == \E j \in DOMAIN m.cfs : ~QEq(NumQ(e.at[m.cfs[j].w].cf), Q1)

Verdict(e) ==
    LET p == Parse(e.ts) IN
    IF Unspecified(e.ts) /\ ~p.ok THEN ""
    ELSE IF ~e.acc /\ e.how = "runtime" /\ Huge(e.ts) THEN ""
    ELSE IF ~p.ok THEN (IF e.acc THEN "a malformed expression is read as a unit" ELSE "")
    ELSE IF \E w \in Words(p.e) : ~Known(w) THEN (IF e.acc THEN "an unknown unit is accepted" ELSE "")
    ELSE LET m == MeaningX(p.e, e.at) IN
         IF ~FitsM(m) THEN (IF e.acc THEN "exponents that cannot be represented are accepted" ELSE "")
         ELSE IF e.how = "unit!" /\ HasFactor(m, e) THEN (IF e.acc THEN "unit! accepts a unit that is not stored as it is" ELSE "")
         ELSE IF ~e.acc THEN (IF m.fit /\ (e.how # "quantity!" \/ DBits(Factor(m, e)) \in -900 .. 900) THEN "a well-formed expression is rejected" ELSE "")
         ELSE IF e.d # m.d THEN "dimension exponents"
         ELSE IF e.sc # m.sc THEN "scale exponents"
         ELSE IF e.how \in {"unit!", "runtime"} THEN ""
         ELSE IF m.aff /\ (e.how = "quantity!" \/ ~SingleWord(p.e)) THEN ""   \* a point scale inside a compound unit: unspecified; declared numbers: Convert
         ELSE IF ~FactorOK(m, e) THEN "conversion factor"
         ELSE IF e.how = "core" /\ ~m.aff /\ ~(IsNum(e.off) /\ NumQ(e.off).s = 0) THEN "zero point"
         ELSE IF e.how = "core" /\ m.aff /\ e.off # e.at[p.e.w].off THEN "zero point"
         ELSE ""
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
