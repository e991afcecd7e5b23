------------------------------- MODULE Units --------------------------------
(* What written units mean.  The catalogue is written down independently of    *)
(* the implementation, from the definitions of the units (SI brochure, the     *)
(* international yard and pound agreement, the US and imperial measures, IAU). *)
(*                                                                             *)
(* A meaning is [d |-> dimension vector, m |-> magnitude, p |-> power of pi,   *)
(* off |-> zero point], where the unit is m * pi^p coherent SI units of that   *)
(* dimension (kilogram, metre, second, ampere, kelvin, mole, candela, radian), *)
(* m an exact rational, and a reading x in the unit is the quantity            *)
(* (x + off) * m * pi^p.                                                       *)
(* Dimension vectors: <<mass, length, time, current, temperature, amount,      *)
(* luminous intensity, angle>>.                                                *)
(* "{mu}" and "{Ohm}" stand for the two non-ASCII letters of the catalogue.    *)
EXTENDS Num, FiniteSets, TLC

U(n, syms, d, m, p) == [name |-> n, syms |-> syms, d |-> d, m |-> m, p |-> p, off |-> Q0, base |-> FALSE, tol |-> 0]
(* the base unit of its dimension: takes SI prefixes *)
UB(n, syms, d, m) == [name |-> n, syms |-> syms, d |-> d, m |-> m, p |-> 0, off |-> Q0, base |-> TRUE, tol |-> 0]
UO(n, syms, d, m, off) == [name |-> n, syms |-> syms, d |-> d, m |-> m, p |-> 0, off |-> off, base |-> FALSE, tol |-> 0]

dMass == <<1,0,0,0,0,0,0,0>>     dLen == <<0,1,0,0,0,0,0,0>>     dTime == <<0,0,1,0,0,0,0,0>>
dCur == <<0,0,0,1,0,0,0,0>>      dTemp == <<0,0,0,0,1,0,0,0>>    dAmt == <<0,0,0,0,0,1,0,0>>
dLum == <<0,0,0,0,0,0,1,0>>      dAng == <<0,0,0,0,0,0,0,1>>     dFreq == <<0,0,-1,0,0,0,0,0>>
dForce == <<1,1,-2,0,0,0,0,0>>   dEn == <<1,2,-2,0,0,0,0,0>>     dPow == <<1,2,-3,0,0,0,0,0>>
dPres == <<1,-1,-2,0,0,0,0,0>>   dChg == <<0,0,1,1,0,0,0,0>>     dPot == <<1,2,-3,-1,0,0,0,0>>
dCap == <<-1,-2,4,2,0,0,0,0>>    dRes == <<1,2,-3,-2,0,0,0,0>>   dCond == <<-1,-2,3,2,0,0,0,0>>
dInd == <<1,2,-2,-2,0,0,0,0>>    dMagB == <<1,0,-2,-1,0,0,0,0>>  dFlux == <<1,2,-2,-1,0,0,0,0>>
dIll == <<0,-2,0,0,0,0,1,0>>     dKVis == <<0,2,-1,0,0,0,0,0>>   dArea == <<0,2,0,0,0,0,0,0>>
dVol == <<0,3,0,0,0,0,0,0>>

I(n) == QInt(n)
lb == Dec(<<45, 359, 237>>, -8)                  \* avoirdupois pound, kg
gr == QDiv(lb, I(7000))                          \* grain
foot == QDiv(I(3048), I(10000))
inch == QDiv(foot, I(12))
g0 == QDiv(I(980665), I(100000))                 \* standard gravity
lbf == QMul(lb, g0)
Litre == QDiv(I(1), I(1000))
cubicInch == QPow(inch, 3)
galUS == QMul(I(231), cubicInch)
galUK == QMul(Dec(<<4, 546, 90>>, -6), Litre)    \* 4.54609 L
Frac(x, k) == QDiv(x, I(k))

Catalogue == <<
  UB("gram", <<"g">>, dMass, Frac(I(1), 1000)),
  U("grain", <<"gr">>, dMass, gr, 0),
  U("carat", <<"ct">>, dMass, Frac(I(2), 10000), 0),
  U("ounce", <<"oz">>, dMass, Frac(lb, 16), 0),
  U("troy_ounce", <<"ozt">>, dMass, QMul(gr, I(480)), 0),
  U("troy_pound", <<"lbt">>, dMass, QMul(gr, I(5760)), 0),
  U("pound", <<"lb">>, dMass, lb, 0),
  U("stone", <<"st">>, dMass, QMul(lb, I(14)), 0),
  U("ton", <<"t">>, dMass, QMul(lb, I(2240)), 0),
  U("slug", <<"slg">>, dMass, QDiv(lbf, foot), 0),
  UB("meter", <<"m">>, dLen, I(1)),
  U("inch", <<"in">>, dLen, inch, 0),
  U("foot", <<"ft">>, dLen, foot, 0),
  U("yard", <<"yd">>, dLen, QMul(foot, I(3)), 0),
  U("fathom", <<"ftm">>, dLen, QMul(foot, I(6)), 0),
  U("furlong", <<"fur">>, dLen, QMul(foot, I(660)), 0),
  U("mile", <<"mi">>, dLen, QMul(foot, I(5280)), 0),
  U("nautical_mile", <<"nmi">>, dLen, I(1852), 0),
  U("astronomical_unit", <<"AU">>, dLen, Dec(<<149, 597, 870, 700>>, 0), 0),
  U("light_year", <<"ly">>, dLen, Dec(<<9, 460, 730, 472, 580, 800>>, 0), 0),
  \* 648000/pi astronomical units
  U("parsec", <<"pc">>, dLen, QMul(Dec(<<149, 597, 870, 700>>, 0), I(648000)), -1),
  UB("second", <<"s">>, dTime, I(1)),
  U("minute", <<"min">>, dTime, I(60), 0),
  U("hour", <<"h", "hr">>, dTime, I(3600), 0),
  U("day", <<"d">>, dTime, I(86400), 0),
  U("week", <<"wk">>, dTime, I(604800), 0),
  U("month", <<"mo">>, dTime, I(2592000), 0),            \* 30 days
  [U("year", <<"yr">>, dTime, I(31556925), 0) EXCEPT !.tol = 24], \* tropical year, to the second
  UB("ampere", <<"A">>, dCur, I(1)),
  UB("kelvin", <<"K">>, dTemp, I(1)),
  UO("celsius", <<"degC">>, dTemp, I(1), Frac(I(27315), 100)),
  U("rankine", <<"degR">>, dTemp, Frac(I(5), 9), 0),
  UO("fahrenheit", <<"degF">>, dTemp, Frac(I(5), 9), Frac(I(45967), 100)),
  UB("mole", <<"mol">>, dAmt, I(1)),
  UB("candela", <<"cd">>, dLum, I(1)),
  U("lumen", <<"lm">>, dLum, I(1), 0),
  UB("radian", <<"rad">>, dAng, I(1)),
  U("degree", <<"deg">>, dAng, Frac(I(1), 180), 1),
  U("gradian", <<"grad">>, dAng, Frac(I(1), 200), 1),
  U("turn", <<"rot", "turn">>, dAng, I(2), 1),
  U("arcminute", <<"arcmin">>, dAng, Frac(I(1), 10800), 1),
  U("arcsecond", <<"arcsec">>, dAng, Frac(I(1), 648000), 1),
  UB("hertz", <<"Hz">>, dFreq, I(1)),
  UB("newton", <<"N">>, dForce, I(1)),
  UB("joule", <<"J">>, dEn, I(1)),
  U("newton_meter", <<"Nm">>, dEn, I(1), 0),
  U("electron_volt", <<"eV">>, dEn, Dec(<<1, 602, 176, 634>>, -28), 0),
  U("erg", <<"erg">>, dEn, P10(-7), 0),
  U("calorie", <<"cal">>, dEn, Frac(I(4184), 1000), 0),
  U("foot_pound", <<"ft_lb">>, dEn, QMul(foot, lbf), 0),
  U("kilowatt_hour", <<"kWh">>, dEn, I(3600000), 0),
  U("therm", <<"thm">>, dEn, Dec(<<105, 505, 585, 262>>, -3), 0),  \* 100 000 Btu(IT)
  UB("watt", <<"W">>, dPow, I(1)),
  U("horsepower", <<"hp">>, dPow, QMul(QMul(foot, lbf), I(550)), 0),
  UB("pascal", <<"Pa">>, dPres, I(1)),
  U("torr", <<"Torr">>, dPres, Frac(I(101325), 760), 0),
  U("psi", <<"psi">>, dPres, QDiv(lbf, QPow(inch, 2)), 0),
  U("bar", <<"bar">>, dPres, I(100000), 0),
  U("atmosphere", <<"atm">>, dPres, I(101325), 0),
  UB("coulomb", <<"C">>, dChg, I(1)),
  UB("volt", <<"V">>, dPot, I(1)),
  UB("farad", <<"F">>, dCap, I(1)),
  UB("ohm", <<"{Ohm}">>, dRes, I(1)),
  UB("siemens", <<"S">>, dCond, I(1)),
  UB("henry", <<"H">>, dInd, I(1)),
  UB("tesla", <<"T">>, dMagB, I(1)),
  U("gauss", <<"G">>, dMagB, P10(-4), 0),
  UB("weber", <<"Wb">>, dFlux, I(1)),
  UB("lux", <<"lx">>, dIll, I(1)),
  UB("stokes", <<"St">>, dKVis, P10(-4)),
  UB("hectare", <<"hect">>, dArea, I(10000)),
  U("acre", <<"acre">>, dArea, QMul(QPow(foot, 2), I(43560)), 0),
  UB("liter", <<"L", "l">>, dVol, Litre),
  U("gallon", <<"gal", "gallon">>, dVol, galUS, 0),
  U("quart", <<"qrt">>, dVol, Frac(galUS, 4), 0),
  U("pint", <<"pnt">>, dVol, Frac(galUS, 8), 0),
  U("cup", <<"cup">>, dVol, Frac(galUS, 16), 0),
  U("fluid_ounce", <<"fl_oz">>, dVol, Frac(galUS, 128), 0),
  U("tablespoon", <<"tbsp">>, dVol, Frac(galUS, 256), 0),
  U("teaspoon", <<"tsp">>, dVol, Frac(galUS, 768), 0),
  U("uk_gallon", <<"uk_gal">>, dVol, galUK, 0),
  U("uk_quart", <<"uk_qrt">>, dVol, Frac(galUK, 4), 0),
  U("uk_pint", <<"uk_pnt">>, dVol, Frac(galUK, 8), 0),
  U("uk_cup", <<"uk_cup">>, dVol, Frac(galUK, 16), 0),
  U("uk_fluid_ounce", <<"uk_fl_oz">>, dVol, Frac(galUK, 160), 0),
  U("uk_tablespoon", <<"uk_tbsp">>, dVol, Frac(galUK, 256), 0),
  U("uk_teaspoon", <<"uk_tsp">>, dVol, Frac(galUK, 768), 0),
  U("bushel", <<"bu">>, dVol, QMul(Dec(<<215, 42>>, -2), cubicInch), 0)
>>

Prefixes == <<
  [name |-> "quecto", syms |-> <<"q">>, e |-> -30], [name |-> "ronto", syms |-> <<"r">>, e |-> -27],
  [name |-> "yocto", syms |-> <<"y">>, e |-> -24],  [name |-> "zepto", syms |-> <<"z">>, e |-> -21],
  [name |-> "atto", syms |-> <<"a">>, e |-> -18],   [name |-> "femto", syms |-> <<"f">>, e |-> -15],
  [name |-> "pico", syms |-> <<"p">>, e |-> -12],   [name |-> "nano", syms |-> <<"n">>, e |-> -9],
  [name |-> "micro", syms |-> <<"{mu}", "u">>, e |-> -6], [name |-> "milli", syms |-> <<"m">>, e |-> -3],
  [name |-> "centi", syms |-> <<"c">>, e |-> -2],   [name |-> "deci", syms |-> <<"d">>, e |-> -1],
  [name |-> "deca", syms |-> <<"da">>, e |-> 1],    [name |-> "hecto", syms |-> <<"h">>, e |-> 2],
  [name |-> "kilo", syms |-> <<"k">>, e |-> 3],     [name |-> "mega", syms |-> <<"M">>, e |-> 6],
  [name |-> "giga", syms |-> <<"G">>, e |-> 9],     [name |-> "tera", syms |-> <<"T">>, e |-> 12],
  [name |-> "peta", syms |-> <<"P">>, e |-> 15],    [name |-> "exa", syms |-> <<"E">>, e |-> 18],
  [name |-> "zetta", syms |-> <<"Z">>, e |-> 21],   [name |-> "yotta", syms |-> <<"Y">>, e |-> 24],
  [name |-> "ronna", syms |-> <<"R">>, e |-> 27],   [name |-> "quetta", syms |-> <<"Q">>, e |-> 30] >>

(* units that exist as constants of the implementation but in no dimension's   *)
(* list, hence cannot be written                                               *)
Unlisted == {"slug", "fathom", "furlong"}
Listed == {i \in 1 .. Len(Catalogue) : Catalogue[i].name \notin Unlisted}

ListedSeq == SelectSeq([i \in 1 .. Len(Catalogue) |-> i], LAMBDA i : i \in Listed)
Range(s) == {s[i] : i \in DOMAIN s}
WholeWords(u) == Range(u.syms) \union {u.name}
Whole == UNION {WholeWords(Catalogue[i]) : i \in Listed}

(* every way of writing a single unit: [w |-> text, i |-> unit, e |-> power of *)
(* ten of the prefix, pre |-> prefix index or 0]                               *)
WholeForms == {[w |-> w, i |-> i, e |-> 0, pre |-> 0] : <<i, w>> \in
                 {<<i, w>> \in Listed \X Whole : w \in WholeWords(Catalogue[i])}}
SymbolForms == {[w |-> Prefixes[p].syms[k] \o Catalogue[i].syms[j], i |-> i, e |-> Prefixes[p].e, pre |-> p] :
                 <<p, k, i, j>> \in {<<p, k, i, j>> \in (1 .. Len(Prefixes)) \X (1 .. 2) \X Listed \X (1 .. 2) :
                     /\ Catalogue[i].base
                     /\ k <= Len(Prefixes[p].syms) /\ j <= Len(Catalogue[i].syms)}}
NameForms == {[w |-> Prefixes[p].name \o Catalogue[i].name, i |-> i, e |-> Prefixes[p].e, pre |-> p] :
                 <<p, i>> \in {<<p, i>> \in (1 .. Len(Prefixes)) \X Listed : Catalogue[i].base}}
(* a prefixed form that is also the whole symbol or name of a unit is read as  *)
(* that unit                                                                   *)
Forms == WholeForms \union {f \in SymbolForms \union NameForms : f.w \notin Whole}

(* no text has two readings *)
Unambiguous == Cardinality({f.w : f \in Forms}) = Cardinality(Forms)

MeaningU(u, e) == [d |-> u.d, m |-> QMul(u.m, P10(e)), p |-> u.p, off |-> u.off, tol |-> u.tol]
Meaning(f) == MeaningU(Catalogue[f.i], f.e)
(* the size of the unit as a plain number of coherent SI units *)
MagQ(mn) == QMul(mn.m, QPow(PI, mn.p))
=============================================================================
