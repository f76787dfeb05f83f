------------------------------- MODULE Thermo -------------------------------
(* The physical relations the snow model is defined by: saturation vapour   *)
(* pressure, humidity, latent and specific heats, gas laws, conduction, the *)
(* turbulent exchange.  Written from the published formulas (Anderson 1976; *)
(* Marks and Dozier 1992; Brutsaert 1982) with the constants of the model.  *)
EXTENDS F64

FREEZE      == F("273.16")
BOIL        == F("373.15")
SEA_LEVEL   == F("101324.6")
STD_AIRTMP  == F("288")
STD_LAPSE   == F("-6.5")
RGAS        == F("8314.32")
GRAVITY     == F("9.80665")
MOL_AIR     == F("28.9644")
MOL_H2O     == F("18.0153")
VON_KARMAN  == F("0.41")
RHO_W0      == F("999.87")
RHO_ICE     == F("917")
CP_W0       == F("4217.7")
CAL_TO_J    == F("4.186798188")
EMISSIVITY  == F("0.98")
STEF_BOLTZ  == F("5.67032e-8")
KT_MOISTSAND == F("1.65")
CP_AIR      == F("1005")
Zero == F("0")
One  == F("1")
Two  == F("2")
Half == F("0.5")
Ten  == F("10")
VAP_SUB     == F("2.501") \oslash F("2.835")
MIN_TEMP    == FREEZE \ominus F("75")
DALR        == GRAVITY \oslash CP_AIR
LOG10       == FLn(Ten)
PI          == F("3.141592653589793")

----------------------------------------------------------------------------
(* Saturation vapour pressure (Pa)                                          *)
LOGSEA == FLn(SEA_LEVEL) \oslash LOG10
LOG6   == FLn(F("6.1071")) \oslash LOG10

SatWater(t) ==
  LET b == BOIL \oslash t
      bm == b \ominus One
  IN FPow(Ten,
       ((((F("-7.90298") \otimes bm)
          \oplus (F("5.02808") \otimes (FLn(b) \oslash LOG10)))
         \ominus (F("1.3816e-7") \otimes
            (FPow(Ten, F("11.344") \otimes (One \ominus (t \oslash BOIL))) \ominus One)))
        \oplus (F("8.1328e-3") \otimes
            (FPow(Ten, F("-3.49149") \otimes bm) \ominus One)))
       \oplus LOGSEA)

SatIceFormula(t) ==
  LET f == FREEZE \oslash t
  IN F("100") \otimes FPow(Ten,
       (((F("-9.09718") \otimes (f \ominus One))
         \ominus (F("3.56654") \otimes (FLn(f) \oslash LOG10)))
        \oplus (F("0.876793") \otimes (One \ominus (t \oslash FREEZE))))
       \oplus LOG6)

\* over ice at or below freezing, over water above
SatVP(t) == IF t \succ FREEZE THEN SatWater(t) ELSE SatIceFormula(t)

----------------------------------------------------------------------------
CpIce(t)   == (CAL_TO_J \otimes (F("0.024928") \oplus (F("0.00176") \otimes t))) \otimes F("1000")
CpWater(t) == CP_W0 \ominus (F("2.55") \otimes (t \ominus FREEZE))
LhVap(t)   == F("2.5e6") \ominus (F("2955.73") \otimes (t \ominus FREEZE))
LhFus(t)   == F("333600") \oplus (F("166.67") \otimes (FREEZE \ominus t))
LhSub(t)   == LhVap(t) \oplus LhFus(t)
LF0        == LhFus(FREEZE)
\* latent heat of the exchange between the air and a surface at t
LhSurface(t) == IF t \preceq FREEZE THEN LhSub(t) ELSE LhVap(t)

GasDensity(p, mol, t) == (p \otimes mol) \oslash (RGAS \otimes t)
VirtualTemp(t, e, p) ==
  t \oslash (One \ominus ((One \ominus (MOL_H2O \oslash MOL_AIR)) \otimes (e \oslash p)))
MixRatio(e, p) == ((MOL_H2O \oslash MOL_AIR) \otimes e) \oslash (p \ominus e)
SpecHum(e, p) ==
  (e \otimes MOL_H2O) \oslash ((MOL_AIR \otimes p) \oplus (e \otimes (MOL_H2O \ominus MOL_AIR)))
Diffusion(p, t) ==
  (F("0.65e-4") \otimes (SEA_LEVEL \oslash p)) \otimes FPow(t \oslash FREEZE, F("14"))
VaporFlux(dens, k, dq, dz) == (dens \otimes k) \otimes (dq \oslash dz)
HySat(pb, tb, lapse, h, g, m) ==
  IF FEq(lapse, Zero)
  THEN pb \otimes FExp(FNeg((((g \otimes m) \otimes h) \otimes F("1000")) \oslash (RGAS \otimes tb)))
  ELSE pb \otimes FPow(tb \oslash (tb \oplus (lapse \otimes h)),
                      (g \otimes m) \oslash ((RGAS \otimes lapse) \otimes F("0.001")))
AirPressure(elevation) ==
  HySat(SEA_LEVEL, STD_AIRTMP, STD_LAPSE, elevation \oslash F("1000"), GRAVITY, MOL_AIR)
TimeAverage(avg, total, val, incr) ==
  ((avg \otimes total) \oplus (val \otimes incr)) \oslash (total \oplus incr)

----------------------------------------------------------------------------
(* Snow                                                                     *)
HeatStored(cp, mass, dt) == (cp \otimes mass) \otimes dt
MeltMass(q)  == q \oslash LF0
\* energy (negative) needed to bring a layer to freezing
ColdContent(t, m) ==
  IF t \prec FREEZE THEN HeatStored(CpIce(t), m, t \ominus FREEZE) ELSE Zero
\* temperature of a layer with cold content cc, was at t0
LayerTemp(m, t0, cc) == FREEZE \oplus (cc \oslash (m \otimes CpIce(t0)))
\* liquid water (kg/m^2) a snowcover of depth d and dry density rho holds at
\* the volumetric content v
WaterHeld(d, rho, v) == (((v \otimes d) \otimes RHO_W0) \otimes (RHO_ICE \ominus rho)) \oslash RHO_ICE
DryDensity(rho, v) ==
  (rho \ominus (v \otimes RHO_W0)) \oslash (One \ominus ((v \otimes RHO_W0) \oslash RHO_ICE))
SnowConductivity(rho) ==
  LET r == rho \oslash F("1000") IN (CAL_TO_J \otimes F("0.0077")) \otimes (r \otimes r)

\* effective conductivity: conduction and vapour diffusion, es = saturation at t
EffConductivity(k, t, p, es) ==
  LET lh == IF t \succ FREEZE THEN LhVap(t)
            ELSE IF FEq(t, FREEZE) THEN (LhVap(t) \oplus LhSub(t)) \otimes Half
            ELSE LhSub(t)
  IN k \oplus ((lh \otimes Diffusion(p, t)) \otimes MixRatio(es, p))
\* steady-state conduction between two layers, positive towards layer 1
SteadyConduction(k1, k2, t1, t2, d1, d2) ==
  (Two \otimes ((k1 \otimes k2) \otimes (t2 \ominus t1)))
    \oslash ((k2 \otimes d1) \oplus (k1 \otimes d2))
BlackBody(t) == STEF_BOLTZ \otimes ((t \otimes t) \otimes (t \otimes t))
NetRadiation(sn, lw, ts) == sn \oplus (EMISSIVITY \otimes (lw \ominus BlackBody(ts)))

----------------------------------------------------------------------------
(* Turbulent exchange (Obukhov stability)                                   *)
PsiM(zeta) ==
  IF zeta \succ Zero THEN F("-5.2") \otimes FMin(zeta, One)
  ELSE IF zeta \prec Zero
  THEN LET x == FSqrt(FSqrt(One \ominus (F("16") \otimes zeta)))
           h == (One \oplus x) \otimes Half
           s == (One \oplus (x \otimes x)) \otimes Half
       IN (((Two \otimes FLn(h)) \oplus FLn(s)) \ominus (Two \otimes FAtan(x)))
            \oplus (PI \otimes Half)
  ELSE Zero
PsiH(zeta) ==
  IF zeta \succ Zero THEN F("-5.2") \otimes FMin(zeta, One)
  ELSE IF zeta \prec Zero
  THEN Two \otimes FLn((One \oplus FSqrt(One \ominus (F("16") \otimes zeta))) \otimes Half)
  ELSE Zero

\* the exchange cannot be calculated from a: sensors at or below the surface
\* plus roughness, no temperature, pressures that are none; `by` is a margin
ExchangeRefused(a, by) ==
  \/ a.z0 \preceq Zero
  \/ \E z \in {a.za, a.zq, a.zu} : (z \oplus by) \preceq a.z0
  \/ a.ta \preceq Zero \/ a.ts \preceq Zero
  \/ a.press \preceq Zero \/ a.ea \preceq Zero \/ a.es \preceq Zero
  \/ a.ea \succeq a.press \/ a.es \succeq a.press
\* nothing is said about sensors just above the roughness, or about air far
\* above saturation
ExchangeVague(a) ==
  \/ \E z \in {a.za, a.zq, a.zu} : z \preceq (F("6") \otimes a.z0)
  \/ (a.ea \ominus F("24.9")) \succ SatWater(a.ta)

\* what the exchange depends on, once and for all iterations
\* a: [press, ta, ts, za, ea, es, zq, u, zu, z0]
Exchange(a) ==
  LET eaw == SatWater(a.ta)
      ea == FMin(a.ea, eaw)
      d0 == (F("14.7") \otimes a.z0) \oslash F("3")     \* 2/3 * 7.35 z0
      tp == a.ta \oplus (DALR \otimes a.za)             \* potential temperature
  IN [ lm |-> FLn((a.zu \ominus d0) \oslash a.z0),
       lh |-> FLn((a.za \ominus d0) \oslash a.z0),
       lv |-> FLn((a.zq \ominus d0) \oslash a.z0),
       dq |-> SpecHum(ea, a.press) \ominus SpecHum(a.es, a.press),
       dT |-> tp \ominus a.ts,
       ta |-> tp, u |-> a.u, za |-> a.za, zu |-> a.zu, zq |-> a.zq,
       dens |-> GasDensity(a.press, MOL_AIR,
                  VirtualTemp(FSqrt(tp \otimes a.ts), FSqrt(ea \otimes a.es), a.press)) ]

Obukhov(x, ustar, h, e) ==
  (((ustar \otimes ustar) \otimes ustar) \otimes x.dens) \oslash
    ((VON_KARMAN \otimes GRAVITY) \otimes
       ((h \oslash (x.ta \otimes CP_AIR)) \oplus (F("0.61") \otimes e)))
Ustar(x, lo) == (VON_KARMAN \otimes x.u) \oslash (x.lm \ominus PsiM(x.zu \oslash lo))
Sensible(x, ustar, lo) ==
  (((x.dT \otimes VON_KARMAN) \otimes ustar) \otimes (x.dens \otimes CP_AIR))
    \oslash (x.lh \ominus PsiH(x.za \oslash lo))
Vapour(x, ustar, lo) ==
  ((x.dq \otimes VON_KARMAN) \otimes (ustar \otimes x.dens))
    \oslash (x.lv \ominus PsiH(x.zq \oslash lo))

Calm(x)    == FEq(x.u, Zero)
Neutral(x) == FEq(x.dT, Zero)
NeutralUstar(x) == (VON_KARMAN \otimes x.u) \oslash x.lm

ITMAX == 50
TOL == F("1e-5")

\* successive substitution on the stability length, from friction velocity
\* ustar and fluxes h, e
RECURSIVE Iterate(_, _, _, _, _, _)
Iterate(x, n, ustar, h, e, last) ==
  LET lo == Obukhov(x, ustar, h, e)
      us == Ustar(x, lo)
      e1 == Vapour(x, us, lo)
      h1 == Sensible(x, us, lo)
      d  == FAbs(last \ominus lo)
      r  == FAbs((last \ominus lo) \oslash lo)
      small == d \prec TOL /\ r \prec TOL
      Result(ok) == [h |-> h1, e |-> e1, ustar |-> us, lo |-> lo, n |-> n, ok |-> ok,
                      gap |-> FMin(d, r)]
  IN IF small THEN Result(TRUE)
     ELSE IF n >= ITMAX
     THEN Result(~(d \succ TOL /\ r \succ TOL))
     ELSE Iterate(x, n + 1, us, h1, e1, lo)

\* start: [has |-> BOOLEAN, ustar, factor], the solution to start from
Turbulent(x, start) ==
  IF Calm(x) \/ Neutral(x)
  THEN LET us == NeutralUstar(x)
           f  == (VON_KARMAN \otimes us) \otimes x.dens
       IN [h |-> ((x.dT \otimes f) \otimes CP_AIR) \oslash x.lh,
           e |-> (x.dq \otimes f) \oslash x.lv,
           ustar |-> us, lo |-> Zero, n |-> 0, ok |-> TRUE, gap |-> Zero]
  ELSE LET us == IF start.has THEN start.ustar ELSE NeutralUstar(x)
           f  == IF start.has THEN start.factor ELSE (VON_KARMAN \otimes us) \otimes x.dens
       IN Iterate(x, 1, us,
                  ((x.dT \otimes f) \otimes CP_AIR) \oslash x.lh,
                  (x.dq \otimes f) \oslash x.lv, F("1e308"))
NoStart == [has |-> FALSE, ustar |-> Zero, factor |-> Zero]

\* one more substitution from a claimed solution leaves it where it is
Consistent(x, ustar, h, e, rel) ==
  IF Calm(x) THEN FEq(h, Zero) /\ FEq(e, Zero)
  ELSE IF Neutral(x)
  THEN LET s == Turbulent(x, NoStart)
       IN FNear(h, s.h, rel, F("1e-9")) /\ FNear(e, s.e, rel, F("1e-15"))
  ELSE LET lo == Obukhov(x, ustar, h, e)
           us == Ustar(x, lo)
       IN /\ FNear(ustar, us, rel, F("1e-7"))
          /\ FNear(h, Sensible(x, us, lo), rel, F("1e-4"))
          /\ FNear(e, Vapour(x, us, lo), rel, F("1e-10"))
=============================================================================
