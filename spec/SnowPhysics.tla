---------------------------- MODULE SnowPhysics ----------------------------
(* The point snow model, one operator per phase of a run step.              *)
(*                                                                          *)
(* c  configuration: max_h2o, max_z0, thr (mass thresholds of the normal,   *)
(*    medium and small level), P_a, z_u, z_t, z_g, relative, z_0, and bias  *)
(*    (0; -1/1 resolve comparisons of computed masses that are equal to     *)
(*    within rounding one way or the other).                                *)
(* f  forcing of the run step: S_n I_lw t_a e_a u t_g, precip (is there     *)
(*    any), m_pp m_rain m_snow z_snow t_rain t_snow sat_snow rho_snow.      *)
(* w  the snowcover while it is worked on: the snow state plus sc (takes    *)
(*    part in the energy exchange), h2o_total (liquid water of this step),  *)
(*    melt, E_s, swi and tags (which rules were applied).                   *)
EXTENDS Thermo, FiniteSets, Sequences

NewSnowMaxDensity == F("600")
GravityMaxDensity == F("550")
SweMax == F("2000")

Tag(w, t) == [w EXCEPT !.tags = @ \cup {t}]
Moved(w, t) == [w EXCEPT !.tags = @ \cup {t, "moved"}]

Close(a, b) == FNear(a, b, F("1e-9"), F("1e-12"))
AtMost(c, a, b) == IF c.bias # 0 /\ Close(a, b) THEN c.bias > 0 ELSE a \preceq b
Below(c, a, b)  == IF c.bias # 0 /\ Close(a, b) THEN c.bias > 0 ELSE a \prec b

----------------------------------------------------------------------------
(* Layers                                                                   *)

\* depths of the layers of a snowcover of depth z, mass m and density rho
Layers(c, z, m, rho) ==
  IF AtMost(c, m, c.thr[3]) \/ z \preceq Zero
  THEN [n |-> 0, z0 |-> Zero, zl |-> Zero]
  ELSE LET low == z \ominus c.max_z0
       IN IF low \preceq Zero \/ Below(c, low \otimes rho, c.thr[3])
          THEN [n |-> 1, z0 |-> z, zl |-> Zero]
          ELSE [n |-> 2, z0 |-> c.max_z0, zl |-> low]

LayerMass(w) == [w EXCEPT !.m_s_0 = w.rho \otimes w.z_s_0, !.m_s_l = w.rho \otimes w.z_s_l]

\* the whole snowcover becomes liquid water of this step
Remove(w) ==
  [w EXCEPT !.rho = Zero, !.h2o_total = FMax(w.m_s, Zero),
            !.h2o_vol = Zero, !.h2o = Zero, !.h2o_max = Zero, !.h2o_sat = Zero,
            !.m_s = Zero, !.m_s_0 = Zero, !.m_s_l = Zero,
            !.cc_s_0 = Zero, !.cc_s_l = Zero,
            !.t_s = MIN_TEMP, !.t_s_0 = MIN_TEMP, !.t_s_l = MIN_TEMP,
            !.z_s = Zero, !.z_s_0 = Zero, !.z_s_l = Zero,
            !.layer_count = 0, !.sc = FALSE]

\* layers recomputed after a change of depth or density
Relayer(w, c, where) ==
  LET l  == Layers(c, w.z_s, w.m_s, w.rho)
      prev == w.layer_count
      w1 == LayerMass([w EXCEPT !.z_s = l.z0 \oplus l.zl, !.z_s_0 = l.z0,
                                !.z_s_l = l.zl, !.layer_count = l.n])
  IN IF l.n = 0 THEN Moved(Remove(w), (IF prev = 2 THEN "2to0-" ELSE "1to0-") \o where)
     ELSE IF prev = 1 /\ l.n = 2
     THEN Moved([w1 EXCEPT !.t_s_l = w.t_s, !.cc_s_l = ColdContent(w.t_s, w1.m_s_l)],
              "1to2-" \o where)
     ELSE IF prev = 2 /\ l.n = 1
     THEN Moved([w1 EXCEPT !.t_s_l = MIN_TEMP, !.cc_s_l = Zero], "2to1-" \o where)
     ELSE w1

\* change of depth and mass; density follows, at most NewSnowMaxDensity
Adjust(w, c, dz, dm, where) ==
  LET z == w.z_s \oplus dz
      m == w.m_s \oplus dm
      r == IF FEq(z, Zero) THEN Zero ELSE m \oslash z
      w1 == [w EXCEPT !.z_s = z, !.m_s = m, !.rho = r]
  IN IF r \succ NewSnowMaxDensity
     THEN Relayer(Tag([w1 EXCEPT !.rho = NewSnowMaxDensity,
                             !.z_s = m \oslash NewSnowMaxDensity], "clip-" \o where),
                  c, where)
     ELSE IF FEq(dz, Zero) THEN LayerMass(w1) ELSE Relayer(w1, c, where)

\* a snowcover given by depth, density, temperatures and saturation
\* (s0.z_s, s0.rho, s0.t_s, s0.t_s_0, s0.t_s_l, s0.h2o_sat)
Start(w, c) ==
  LET m == w.rho \otimes w.z_s
      l == Layers(c, w.z_s, m, w.rho)
      vol == w.h2o_sat \otimes c.max_h2o
      w1 == LayerMass([w EXCEPT !.m_s = m, !.z_s = l.z0 \oplus l.zl, !.z_s_0 = l.z0,
                                !.z_s_l = l.zl, !.layer_count = l.n])
      hmax == WaterHeld(w.z_s, DryDensity(w.rho, vol), c.max_h2o)
      sc == w.sc
  IN IF l.n = 0
     THEN [Remove(w) EXCEPT !.h2o_total = w.h2o_total \oplus FMax(m, Zero), !.sc = sc]
     ELSE [w1 EXCEPT
             !.cc_s_0 = ColdContent(w.t_s_0, w1.m_s_0),
             !.cc_s_l = IF l.n = 2 THEN ColdContent(w.t_s_l, w1.m_s_l) ELSE Zero,
             !.t_s_l  = IF l.n = 2 THEN w.t_s_l ELSE MIN_TEMP,
             !.h2o_vol = vol, !.h2o_max = hmax, !.h2o = w.h2o_sat \otimes hmax]

----------------------------------------------------------------------------
(* Energy exchange of a run step                                            *)

EnergyZero == [R_n |-> Zero, H |-> Zero, L_v_E |-> Zero, G |-> Zero, G_0 |-> Zero,
               M |-> Zero]

Heights(c, s) == IF c.relative THEN [u |-> c.z_u, t |-> c.z_t]
                 ELSE [u |-> c.z_u \ominus s.z_s, t |-> c.z_t \ominus s.z_s]

ExchangeArgs(c, s, f) ==
  LET h == Heights(c, s)
  IN [press |-> c.P_a, ta |-> f.t_a, ts |-> s.t_s_0, za |-> h.t,
      ea |-> FMin(f.e_a, SatVP(f.t_a)), es |-> SatVP(s.t_s_0), zq |-> h.t,
      u |-> f.u, zu |-> h.u, z0 |-> c.z_0]

\* heat conducted from the soil at temperature tg into the lowest layer
SoilHeat(c, s, tg) ==
  LET t == IF s.layer_count = 2 THEN s.t_s_l ELSE s.t_s_0
      d == IF s.layer_count = 2 THEN s.z_s_l ELSE s.z_s_0
      tt == FMin(t, FREEZE)
      ks == EffConductivity(SnowConductivity(s.rho), tt, c.P_a, SatVP(t))
      kg == EffConductivity(KT_MOISTSAND, tg, c.P_a, SatVP(tg))
  IN SteadyConduction(ks, kg, tt, tg, d, c.z_g)

\* heat conducted from the lower into the surface layer
LayerHeat(c, s) ==
  IF s.layer_count < 2 \/ FEq(s.t_s_0, s.t_s_l) THEN Zero
  ELSE LET k0 == EffConductivity(SnowConductivity(s.rho), s.t_s_0, c.P_a, SatVP(s.t_s_0))
           kl == EffConductivity(SnowConductivity(s.rho), s.t_s_l, c.P_a, SatVP(s.t_s_l))
       IN SteadyConduction(k0, kl, s.t_s_0, s.t_s_l, s.z_s_0, s.z_s_l)

\* heat brought by precipitation, relative to the surface layer
Advected(s, f, dt) ==
  IF ~f.precip THEN Zero
  ELSE (HeatStored(CpWater(f.t_rain), f.m_rain, f.t_rain \ominus s.t_s_0)
          \oplus HeatStored(CpIce(f.t_snow), f.m_snow, f.t_snow \ominus s.t_s_0)) \oslash dt

\* sums of the terms
SurfaceSum(e) == (((e.R_n \oplus e.H) \oplus e.L_v_E) \oplus e.G_0) \oplus e.M
CoverSum(e)   == (((e.R_n \oplus e.H) \oplus e.L_v_E) \oplus e.G) \oplus e.M

----------------------------------------------------------------------------
(* Mass budget of a run step, phase by phase                                *)

Begin(s) ==
  [z_s |-> s.z_s, z_s_0 |-> s.z_s_0, z_s_l |-> s.z_s_l, m_s |-> s.m_s, m_s_0 |-> s.m_s_0,
   m_s_l |-> s.m_s_l, rho |-> s.rho, t_s |-> s.t_s, t_s_0 |-> s.t_s_0, t_s_l |-> s.t_s_l,
   cc_s_0 |-> s.cc_s_0, cc_s_l |-> s.cc_s_l, h2o |-> s.h2o, h2o_max |-> s.h2o_max,
   h2o_sat |-> s.h2o_sat, h2o_vol |-> s.h2o_vol, layer_count |-> s.layer_count,
   h2o_total |-> Zero, melt |-> Zero, E_s |-> Zero, swi |-> Zero,
   sc |-> s.layer_count > 0, tags |-> {}]

\* 1. compaction with time: temperature and overburden metamorphism
TimeCompact(w, c, dt) ==
  IF ~w.sc \/ w.rho \succeq GravityMaxDensity THEN w
  ELSE
    LET r0 == IF w.m_s \succeq SweMax THEN One
              ELSE (F("23.5") \otimes FCos(PI \otimes (w.m_s \oslash SweMax))) \oplus F("24.5")
        rate == r0 \oslash (dt \oslash F("3600"))
        cold == FREEZE \ominus w.t_s
        K == IF w.rho \prec F("100") THEN One
             ELSE FExp(F("-0.046") \otimes (w.rho \ominus F("100")))
        met == ((F("0.01") \otimes K) \otimes FExp(F("-0.04") \otimes cold)) \oslash rate
        ovb == (((F("0.026") \otimes FExp(F("-0.08") \otimes cold)) \otimes w.m_s)
                 \otimes FExp(F("-21") \otimes (w.rho \oslash RHO_W0))) \oslash rate
        rho == w.rho \oplus ((met \oplus ovb) \otimes w.rho)
    IN Relayer([Tag(w, IF w.m_s \succeq SweMax THEN "compact-deep"
                       ELSE IF w.rho \prec F("100") THEN "compact-light" ELSE "compact")
                 EXCEPT !.rho = rho, !.z_s = w.m_s \oslash rho], c, "compact")

\* 2. precipitation, then the liquid water present joins that of the step
Precipitate(w, f, c) ==
  IF ~f.precip THEN [w EXCEPT !.h2o_total = @ \oplus w.h2o]
  ELSE IF w.sc
  THEN LET w1 == Adjust(w, c, f.z_snow, f.m_pp, "precip")
           vol == f.sat_snow \otimes c.max_h2o
           h == w1.h2o \oplus WaterHeld(f.z_snow, f.rho_snow, vol)
       IN IF ~w1.sc THEN w1
          ELSE [w1 EXCEPT !.h2o = h, !.h2o_total = (@ \oplus h) \oplus f.m_rain]
  ELSE IF f.m_snow \succ Zero
  THEN LET w1 == Start([w EXCEPT !.z_s = f.z_snow, !.rho = f.rho_snow, !.t_s = f.t_snow,
                                 !.t_s_0 = f.t_snow, !.t_s_l = f.t_snow,
                                 !.h2o_sat = f.sat_snow], c)
           t == IF w1.layer_count = 0 THEN "fresh-too-little"
                ELSE IF FEq(f.sat_snow, Zero) THEN "fresh-dry" ELSE "fresh-wet"
           t2 == IF w1.layer_count = 2 THEN {"fresh-two-layers"} ELSE {}
       IN [w1 EXCEPT !.h2o_total = (@ \oplus w1.h2o) \oplus f.m_rain,
                     !.tags = @ \cup {t} \cup t2]
  ELSE Tag([w EXCEPT !.h2o_total = (@ \oplus w.h2o) \oplus f.m_rain], "rain-on-ground")

\* water refrozen and cold content left in a layer with deficit q < 0 that
\* holds the part h of the liquid water
Refreeze(q, h) ==
  LET left == q \oplus (h \otimes LF0)
  IN IF left \preceq Zero THEN [ice |-> h, cc |-> left, full |-> TRUE]
     ELSE [ice |-> h \ominus MeltMass(left), cc |-> Zero, full |-> FALSE]

\* 3. melt or refreezing; dQ0: energy of the surface layer, dQl: of the lower
MeltEnergy(w, c, dt, dQ0, dQl) ==
  IF ~w.sc THEN w
  ELSE
    LET two == w.layer_count = 2
        Q0 == (dQ0 \otimes dt) \oplus w.cc_s_0
        Ql == IF two THEN (dQl \otimes dt) \oplus w.cc_s_l ELSE Zero
        m0 == IF Q0 \succ Zero THEN MeltMass(Q0) ELSE Zero
        ml == IF Ql \succ Zero THEN MeltMass(Ql) ELSE Zero
        melt == m0 \oplus ml
        tot == w.h2o_total \oplus melt
        wet == tot \succ Zero
        r0 == IF Q0 \prec Zero /\ wet
              THEN Refreeze(Q0, (tot \otimes w.z_s_0) \oslash w.z_s)
              ELSE [ice |-> Zero, cc |-> FMin(Q0, Zero), full |-> FALSE]
        rl == IF two /\ Ql \prec Zero /\ wet
              THEN Refreeze(Ql, (tot \otimes w.z_s_l) \oslash w.z_s)
              ELSE [ice |-> Zero, cc |-> IF two THEN FMin(Ql, Zero) ELSE w.cc_s_l,
                    full |-> FALSE]
        liq == tot \ominus (r0.ice \oplus rl.ice)
        n == IF two THEN "2" ELSE "1"
        T0 == IF Q0 \succ Zero THEN "+" ELSE IF Q0 \prec Zero
              THEN (IF ~wet THEN "-" ELSE IF r0.full THEN "f" ELSE "p") ELSE "0"
        Tl == IF ~two THEN "" ELSE IF Ql \succ Zero THEN "+" ELSE IF Ql \prec Zero
              THEN (IF ~wet THEN "-" ELSE IF rl.full THEN "f" ELSE "p") ELSE "0"
    IN [w EXCEPT !.melt = melt, !.cc_s_0 = r0.cc, !.cc_s_l = rl.cc,
                 !.h2o_total = IF FAbs(liq) \preceq F("1e-8") THEN Zero ELSE liq,
                 !.tags = @ \cup {"melt" \o n \o T0 \o Tl}
                            \cup (IF r0.ice \succ Zero \/ rl.ice \succ Zero THEN {"refroze"} ELSE {})]

\* melt takes depth off
MeltDepth(w, c) ==
  IF w.sc /\ w.melt \succ Zero
  THEN Adjust(w, c, FNeg(w.melt \oslash w.rho), Zero, "melt") ELSE w

\* 4. vapour exchanged with the soil (kg/m^2)
SoilVapour(w, f, c, dt) ==
  LET t == IF w.layer_count = 2 THEN w.t_s_l ELSE w.t_s_0
      tb == (f.t_g \oplus t) \otimes Half
      dq == SpecHum(SatVP(f.t_g), c.P_a) \ominus SpecHum(SatVP(t), c.P_a)
  IN VaporFlux(GasDensity(c.P_a, MOL_AIR, tb), Diffusion(c.P_a, tb), dq, c.z_g) \otimes dt

\* liquid water takes part in an exchange e at the vaporization ratio
ShareLiquid(h, e) ==
  IF h \succ Zero THEN FMax(h \oplus (e \otimes VAP_SUB), Zero) ELSE h

\* ea, es: vapour exchanged with the air and the soil
Exchanged(w, c, ea, es) ==
  IF ~w.sc THEN w
  ELSE
    LET h == ShareLiquid(ShareLiquid(w.h2o_total, ea), es)
        tot == FMax(ea \oplus es, FNeg(w.m_s))    \* no more than there is
        dz == (((tot \oplus w.h2o_total) \ominus h) \oslash w.rho) \otimes Half
        t == IF w.h2o_total \succ Zero /\ FEq(h, Zero) THEN "evap-dries"
             ELSE IF tot \succ Zero
             THEN (IF w.h2o_total \succ Zero THEN "condense-wet" ELSE "condense-dry")
             ELSE (IF w.h2o_total \succ Zero THEN "evap-wet" ELSE "evap-dry")
    IN Adjust(Tag([w EXCEPT !.E_s = tot, !.h2o_total = h], t), c, dz, tot, "evap")

\* 5. compaction by added melt and rain
WetCompact(w, f, c) ==
  IF ~w.sc \/ w.rho \succ F("550") THEN w
  ELSE
    LET added == (IF f.precip THEN w.melt \oplus f.m_rain ELSE w.melt) \oslash w.m_s
        rho == w.rho \oplus ((F("550") \ominus w.rho) \oslash (One \oplus (F("0.4") \oslash added)))
    IN IF added \preceq F("1e-6") THEN w
       ELSE Relayer(Tag([w EXCEPT !.rho = rho, !.z_s = w.m_s \oslash rho], "wet-compact"),
                    c, "wet")

\* 6. liquid water beyond the capacity leaves
Drain(w, c) ==
  IF ~w.sc THEN Tag([w EXCEPT !.swi = w.h2o_total],
                    IF w.layer_count > 0 THEN "drain-fresh" ELSE "drain-ground")
  ELSE IF AtMost(c, w.m_s, w.h2o_total)      \* no ice left
  THEN LET w1 == Moved(Remove(w), "all-melted") IN [w1 EXCEPT !.swi = w1.h2o_total]
  ELSE
    LET dry == (w.m_s \ominus w.h2o_total) \oslash w.z_s
        cap == WaterHeld(w.z_s, dry, c.max_h2o)
        out == w.h2o_total \ominus cap
    IN IF w.h2o_total \succ cap
       THEN Tag(LayerMass([w EXCEPT !.h2o_max = cap, !.swi = out, !.h2o = cap,
                       !.h2o_sat = One, !.h2o_vol = c.max_h2o,
                       !.m_s = @ \ominus out, !.rho = (w.m_s \ominus out) \oslash w.z_s]),
                "drain")
       ELSE LET sat == IF cap \succ Zero THEN w.h2o_total \oslash cap ELSE Zero
            IN Tag([w EXCEPT !.h2o_max = cap, !.swi = Zero, !.h2o = w.h2o_total,
                   !.h2o_sat = sat, !.h2o_vol = sat \otimes c.max_h2o], 
                   IF w.h2o_total \succ Zero THEN "hold" ELSE "dry")

\* Deviation of the implementation from the water balance, kept because the
\* reference results depend on it (known finding KF1): the liquid water that a
\* snowcover keeps from the snowfall that started it is also released.
FreshWaterReleasedTwice(w) == ~w.sc /\ w.layer_count > 0 /\ w.h2o \succ Zero

\* 7. temperatures follow the cold contents
Temper(w) ==
  IF ~w.sc THEN w
  ELSE IF w.layer_count = 1
  THEN LET t == LayerTemp(w.m_s_0, w.t_s_0, w.cc_s_0) IN [w EXCEPT !.t_s_0 = t, !.t_s = t]
  ELSE [w EXCEPT !.t_s_0 = LayerTemp(w.m_s_0, w.t_s_0, w.cc_s_0),
                 !.t_s_l = LayerTemp(w.m_s_l, w.t_s_l, w.cc_s_l),
                 !.t_s = LayerTemp(w.m_s, w.t_s, w.cc_s_0 \oplus w.cc_s_l)]

----------------------------------------------------------------------------
(* Precipitation of a data step and its even share for a run step           *)

SnowMass(r) == r.m_pp \otimes r.percent_snow
RainMass(r) == r.m_pp \ominus SnowMass(r)
HasPrecip(r) == r.m_pp \succ Zero
PrecipRefused(r) == HasPrecip(r) /\ SnowMass(r) \succ Zero /\ r.rho_snow \preceq Zero
PrecipTemp(r) == IF RainMass(r) \succ Zero THEN FMax(r.t_pp, FREEZE) ELSE r.t_pp
NewSnowTemp(r) ==
  IF ~HasPrecip(r) \/ SnowMass(r) \preceq Zero THEN Zero
  ELSE IF RainMass(r) \succ Zero THEN FREEZE ELSE FMin(PrecipTemp(r), FREEZE)
NewSnowSat(r) ==
  IF ~HasPrecip(r) \/ SnowMass(r) \preceq Zero THEN Zero
  ELSE IF RainMass(r) \succ Zero \/ r.t_pp \succeq FREEZE THEN One ELSE Zero
RainTemp(r) == IF HasPrecip(r) /\ RainMass(r) \succ Zero THEN PrecipTemp(r) ELSE Zero
NewSnowDepth(r) ==
  IF ~HasPrecip(r) \/ SnowMass(r) \preceq Zero THEN Zero ELSE SnowMass(r) \oslash r.rho_snow

\* forcing of a run step that begins tau seconds into a data step of D seconds
\* with records r1, r2 and lasts dt
Between(a, b, x) == a \oplus ((b \ominus a) \otimes x)
Forcing(r1, r2, tau, dt, D) ==
  LET x == tau \oslash D
      share == dt \oslash D
  IN [S_n |-> Between(r1.S_n, r2.S_n, x), I_lw |-> Between(r1.I_lw, r2.I_lw, x),
      t_a |-> Between(r1.t_a, r2.t_a, x), e_a |-> Between(r1.e_a, r2.e_a, x),
      u |-> Between(r1.u, r2.u, x), t_g |-> Between(r1.t_g, r2.t_g, x),
      precip |-> HasPrecip(r1),
      m_pp |-> r1.m_pp \otimes share, m_snow |-> SnowMass(r1) \otimes share,
      m_rain |-> RainMass(r1) \otimes share, z_snow |-> NewSnowDepth(r1) \otimes share,
      t_rain |-> RainTemp(r1), t_snow |-> NewSnowTemp(r1), sat_snow |-> NewSnowSat(r1),
      rho_snow |-> r1.rho_snow]

----------------------------------------------------------------------------
(* Division of a data step into run steps                                   *)

\* is a layer's mass below the threshold of the level?
ThinLayer(s, thr) ==
  \/ s.layer_count = 1 /\ s.m_s \prec thr
  \/ s.layer_count = 2 /\ (s.m_s_0 \prec thr \/ s.m_s_l \prec thr)

\* pos = <<n, m, k>>: normal steps finished in the data step, and, inside a
\* divided one, medium steps finished and, inside a divided one of these,
\* small steps finished; m or k is -1 when not inside.
\* dts = lengths (s) of the normal, medium and small step
LevelAt(pos, s, c) ==
  IF pos[2] = -1 /\ ~ThinLayer(s, c.thr[1]) THEN 1
  ELSE IF pos[3] = -1 /\ ~ThinLayer(s, c.thr[2]) THEN 2
  ELSE 3
\* after a step of that level; wrapping around when the coarser step is full
Advance(pos, lvl, dts) ==
  LET nm == dts[1] \div dts[2]
      nk == dts[2] \div dts[3]
      m0 == IF pos[2] = -1 THEN 0 ELSE pos[2]
      k0 == IF pos[3] = -1 THEN 0 ELSE pos[3]
  IN IF lvl = 1 THEN <<pos[1] + 1, -1, -1>>
     ELSE IF lvl = 2 \/ k0 + 1 = nk
     THEN (IF m0 + 1 = nm THEN <<pos[1] + 1, -1, -1>> ELSE <<pos[1], m0 + 1, -1>>)
     ELSE <<pos[1], m0, k0 + 1>>
StartOfDataStep == <<0, -1, -1>>

----------------------------------------------------------------------------
(* The whole run step, and the running averages and totals                  *)

\* fluxes: the energy terms and dQ_0 / G / G_0 they imply
Fluxes(c, s, f, dt, ws) ==
  IF s.layer_count = 0
  THEN [R_n |-> Zero, H |-> Zero, L_v_E |-> Zero, G |-> Zero, G_0 |-> Zero, M |-> Zero,
        ok |-> TRUE, n |-> 0, ustar |-> Zero, factor |-> Zero, stab |-> "none", gap |-> Zero]
  ELSE LET x == Exchange(ExchangeArgs(c, s, f))
           t == Turbulent(x, ws)
           G == SoilHeat(c, s, f.t_g)
       IN [R_n |-> NetRadiation(f.S_n, f.I_lw, s.t_s_0),
           H |-> t.h, L_v_E |-> LhSurface(s.t_s_0) \otimes t.e,
           G |-> G, G_0 |-> IF s.layer_count = 1 THEN G ELSE LayerHeat(c, s),
           M |-> Advected(s, f, dt),
           ok |-> t.ok, n |-> t.n, ustar |-> t.ustar, gap |-> t.gap,
           factor |-> (VON_KARMAN \otimes t.ustar) \otimes x.dens,
           stab |-> IF Calm(x) THEN "calm" ELSE IF Neutral(x) THEN "neutral"
                    ELSE IF t.lo \succ Zero THEN "stable" ELSE "unstable"]

MassBudget(w0, c, f, dt, e) ==
  LET w1 == TimeCompact(w0, c, dt)
      w2 == Precipitate(w1, f, c)
      w3 == MeltDepth(MeltEnergy(w2, c, dt, SurfaceSum(e), e.G \ominus e.G_0), c)
      ea == (e.L_v_E \oslash LhSurface(w0.t_s_0)) \otimes dt
      w4 == IF w3.sc THEN Exchanged(w3, c, ea, SoilVapour(w3, f, c, dt)) ELSE w3
  IN Temper(Drain(WetCompact(w4, f, c), c))
=============================================================================
