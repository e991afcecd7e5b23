----------------------------- MODULE LocalCheck -----------------------------
(* Judges declarations in modules of local declarators.                        *)
EXTENDS Local, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

RECURSIVE Prod(_, _, _)
Prod(c, at, i) == IF i = 0 THEN Q1 ELSE QMul(QPow(NumQ(at[c[i].w].cf), c[i].n), Prod(c, at, i - 1))
(* y: the number expected; size: of the terms it is a sum of                    *)
FloatNumber(t, o, y, size, tol) ==
    \/ IsNum(o) /\ Within(NumQ(o), y, QMul(size, tol))
    \/ IsNum(o) /\ QLe(size, FTiny(t)) /\ Within(NumQ(o), y, FTiny(t))
    \/ QLe(QMul(FTop(t), Q(1, BFromNat(1), BFromNat(2))), size)
(* integers: the number is first an integer at the declared scale; when the    *)
(* unit is itself a scale that is the number written                           *)
IntNumber(t, o, x, declared, stored, from, to) ==
    IF stored THEN (IF Fits(t, NumQ(x)) THEN IntOK(t, x, from, to, o) ELSE TRUE)
    ELSE LET r == RatioQ(from, to)  y == QMul(declared, r)  slack == QAdd(QMul(QAdd(Q1, QMul(QAbs(declared), P2(-24))), r), Q1) IN
         IF ~Fits(t, QTrunc(QAdd(declared, Q1))) \/ ~Fits(t, QTrunc(QSub(declared, Q1))) THEN TRUE
         ELSE IF o.k = "i" THEN QLe(QAbs(QSub(NumQ(o), y)), slack)
         ELSE o.k = "panic" /\ (~Fits(t, QTrunc(QAdd(y, slack))) \/ ~Fits(t, QTrunc(QSub(y, slack)))
                                \/ ~QLe(QBig(FNum(VSub(from, to))), I128) \/ ~QLe(QBig(FDen(VSub(from, to))), I128))
(* local macros take a Rust expression: no keywords, and no "." before a        *)
(* parenthesis                                                                 *)
Writable(ts) == \A i \in DOMAIN ts : ts[i].x # "." /\ ~(ts[i].k = "id" /\ ts[i].w \in {"in", "as"})
Verdict(e) ==
    LET p == Parse(e.ts)  m == MeaningX(p.e, e.at)  local == e.mode = "local"
        to == IF local THEN LocalScale(e.prefs, m.d) ELSE m.sc
        single == SingleWord(p.e)
        mn == Meaning(WordForm[p.e.w])                    \* of a single word
        cfs == SelectSeq(m.cfs, LAMBDA c : c.n # 0 /\ ~QEq(NumQ(e.at[c.w].cf), Q1))
        stored == IF single THEN StoredAsIs(mn, m.sc) ELSE Len(cfs) = 0
        x == NumQ(e.x)
        k == Prod(cfs, e.at, Len(cfs))
        declared == IF single THEN Stored(mn, m.sc, x) ELSE QMul(x, k)
        size == IF single THEN Terms(mn, m.sc, x) ELSE QAbs(declared)
        tol == QAdd(P2(-DTol(IF single THEN mn ELSE [tol |-> 0], e.t)), FloatTol(e.t, VSub(m.sc, to)))
        r == RatioQ(m.sc, to)
    IN IF e.syn = "mix" THEN (IF e.acc # (e.b = "()" \/ ~e.bare) THEN (IF e.acc THEN "quantities of different brands are added" ELSE "quantities of one brand cannot be added") ELSE "")
       ELSE IF m.aff /\ ~single THEN ""                        \* a point scale in a compound unit: unspecified
       ELSE IF ~m.fit THEN ""
       ELSE IF ~e.acc THEN (IF e.must /\ (local \/ stored) /\ Writable(e.ts) THEN "the declaration is rejected" ELSE "")
       ELSE IF e.d # m.d THEN "dimension exponents"
       ELSE IF e.s # to THEN "not stored at the preferred scale"
       ELSE IF e.ob # e.b THEN "brand"
       ELSE IF e.ot # e.t THEN "storage type"
       ELSE IF IsFloat(e.t) THEN (IF FloatNumber(e.t, e.v, QMul(declared, r), QMul(size, r), tol) THEN "" ELSE "stored number")
       ELSE IF IntNumber(e.t, e.v, e.x, declared, stored, m.sc, to) THEN "" ELSE "stored number"
JudgeEvent(e) == IF e.op = "module" THEN (IF e.acc = ValidPrefs(e.prefs) THEN "" ELSE IF e.acc THEN "a preference that is no scale of its dimension is accepted" ELSE "a module with fitting preferences is refused")
            ELSE Verdict(e)
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = JudgeEvent(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
