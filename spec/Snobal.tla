------------------------------- MODULE Snobal -------------------------------
(* The point snow model as a state machine.  One action per phase of a run  *)
(* step, in the order the implementation performs them; the environment     *)
(* chooses the weather record that ends each data step.                     *)
EXTENDS SnowPhysics, TLC

CONSTANTS Config,        \* configuration (see SnowPhysics), P_a included
          Dts,           \* <<normal, medium, small>> in seconds
          NormalPerData, \* normal steps in a data step
          Packs,         \* initial snowcovers [z_s, rho, t_s, t_s_0, t_s_l, h2o_sat]
          Weather,       \* input records, a function from names
          MaxData        \* data steps explored

VARIABLES
  w,      \* the snowcover (with the working fields of the step)
  e,      \* energy terms of the run step
  ws,     \* where the next turbulence iteration starts
  r1, r2, \* names of the input records around the data step
  tau, pos, lvl, \* place in the data step; level of the run step under way
  pc,     \* next phase
  clock,  \* seconds since the start
  acc,    \* averages and totals since the last output
  g       \* ghosts: what the properties refer to
vars == <<w, e, ws, r1, r2, tau, pos, lvl, pc, clock, acc, g>>

D == NormalPerData * Dts[1]
dt == FI(Dts[lvl])
f == Forcing(Weather[r1], Weather[r2], FI(tau), dt, FI(D))

AveragedTerms == {"R_n", "H", "L_v_E", "G", "G_0", "M"}
EmptyAcc == [secs |-> 0, avg |-> [x \in AveragedTerms |-> Zero],
             melt |-> Zero, E_s |-> Zero, swi |-> Zero]

Empty == [z_s |-> Zero, z_s_0 |-> Zero, z_s_l |-> Zero, m_s |-> Zero, m_s_0 |-> Zero,
          m_s_l |-> Zero, rho |-> Zero, t_s |-> MIN_TEMP, t_s_0 |-> MIN_TEMP,
          t_s_l |-> MIN_TEMP, cc_s_0 |-> Zero, cc_s_l |-> Zero, h2o |-> Zero,
          h2o_max |-> Zero, h2o_sat |-> Zero, h2o_vol |-> Zero, layer_count |-> 0]
InitialSnow(p) ==
  Start([Begin(Empty) EXCEPT !.z_s = p.z_s, !.rho = p.rho, !.t_s = p.t_s, !.t_s_0 = p.t_s_0,
           !.t_s_l = p.t_s_l, !.h2o_sat = p.h2o_sat], Config)

Init ==
  /\ \E p \in Packs : w = [InitialSnow(p) EXCEPT !.tags = {}]
  /\ e = Fluxes(Config, Empty, [x \in {} |-> 0], Zero, NoStart)
  /\ ws = NoStart
  /\ r1 \in DOMAIN Weather /\ r2 = r1
  /\ tau = 0 /\ pos = StartOfDataStep /\ lvl = 1 /\ clock = 0
  /\ pc = "choose"
  /\ acc = EmptyAcc
  /\ g = [n |-> 0, m0 |-> w.m_s, fell |-> Zero, vapour |-> Zero, left |-> Zero, dev |-> Zero,
          before |-> w, given |-> Zero, sums |-> [x \in AveragedTerms |-> Zero],
          out |-> EmptyAcc, steps |-> 0]

\* the environment delivers the record at the end of the data step
NewRecord ==
  /\ pc = "choose" /\ g.n < MaxData
  /\ \E x \in DOMAIN Weather : r2' = x
  /\ tau' = 0 /\ pos' = StartOfDataStep /\ pc' = "begin"
  /\ g' = [g EXCEPT !.n = @ + 1, !.given = Zero, !.sums = [x \in AveragedTerms |-> Zero],
                    !.steps = 0]
  /\ acc' = EmptyAcc
  /\ UNCHANGED <<w, e, ws, r1, lvl, clock>>

\* the length of the next run step follows from the layer masses
BeginRunStep ==
  /\ pc = "begin"
  /\ lvl' = LevelAt(pos, w, Config)
  /\ w' = Begin(w)
  /\ g' = [g EXCEPT !.before = w']
  /\ pc' = "energy"
  /\ UNCHANGED <<e, ws, r1, r2, tau, pos, clock, acc>>

EnergyBalance ==
  /\ pc = "energy"
  /\ e' = Fluxes(Config, w, f, dt, ws)
  /\ IF e'.ok
     THEN pc' = "compact" /\ ws' = IF w.layer_count = 0 THEN ws
                ELSE [has |-> ~FEq(e'.ustar, Zero), ustar |-> e'.ustar, factor |-> e'.factor]
     ELSE pc' = "stopped" /\ UNCHANGED ws      \* turbulence did not converge
  /\ UNCHANGED <<w, r1, r2, tau, pos, lvl, clock, acc, g>>

Phase(from, to, new) ==
  /\ pc = from /\ pc' = to
  /\ w' = new
  /\ g' = [g EXCEPT !.before = w]
  /\ UNCHANGED <<e, ws, r1, r2, tau, pos, lvl, clock, acc>>

Compact     == Phase("compact", "precip", TimeCompact(w, Config, dt))
Precip      == Phase("precip", "melt", Precipitate(w, f, Config))
Melt        == Phase("melt", "depth", MeltEnergy(w, Config, dt, SurfaceSum(e), e.G \ominus e.G_0))
LoseDepth   == Phase("depth", "vapour", MeltDepth(w, Config))
Vapours     == Phase("vapour", "wet",
                 IF ~w.sc THEN w
                 ELSE Exchanged(w, Config, (e.L_v_E \oslash LhSurface(g.before.t_s_0)) \otimes dt,
                                SoilVapour(w, f, Config, dt)))
Wet         == Phase("wet", "drain", WetCompact(w, f, Config))
DrainSnow   == ~FreshWaterReleasedTwice(w) /\ Phase("drain", "temper", Drain(w, Config))
\* deviation of the implementation, see SnowPhysics
DrainFreshTwice == FreshWaterReleasedTwice(w) /\ Phase("drain", "temper", Drain(w, Config))
Temperature == Phase("temper", "account", Temper(w))

\* averages, totals, clock
Account ==
  /\ pc = "account"
  /\ acc' = [secs |-> acc.secs + Dts[lvl],
             avg |-> [x \in AveragedTerms |->
                        IF acc.secs = 0 THEN e[x]
                        ELSE TimeAverage(acc.avg[x], FI(acc.secs), e[x], dt)],
             melt |-> acc.melt \oplus w.melt, E_s |-> acc.E_s \oplus w.E_s,
             swi |-> acc.swi \oplus w.swi]
  /\ clock' = clock + Dts[lvl]
  /\ tau' = tau + Dts[lvl]
  /\ pos' = Advance(pos, lvl, Dts)
  /\ pc' = IF tau' = D THEN "output" ELSE "begin"
  /\ g' = [g EXCEPT !.fell = @ \oplus f.m_pp, !.vapour = @ \oplus w.E_s, !.left = @ \oplus w.swi,
                    !.dev = IF FreshWaterReleasedTwice(w) THEN @ \oplus w.h2o ELSE @,
                    !.given = @ \oplus f.m_pp, !.steps = @ + 1,
                    !.sums = [x \in AveragedTerms |-> @[x] \oplus (e[x] \otimes dt)],
                    !.before = w]
  /\ UNCHANGED <<w, e, ws, r1, r2, lvl>>

Output ==
  /\ pc = "output"
  /\ g' = [g EXCEPT !.out = acc]
  /\ r1' = r2
  /\ pc' = "choose"
  /\ UNCHANGED <<w, e, ws, r2, tau, pos, lvl, clock, acc>>

Next == \/ NewRecord \/ BeginRunStep \/ EnergyBalance \/ Compact \/ Precip \/ Melt
        \/ LoseDepth \/ Vapours \/ Wet \/ DrainSnow \/ DrainFreshTwice \/ Temperature
        \/ Account \/ Output
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The properties                                                           *)
T9 == F("1e-9")
T7 == F("1e-7")
Resting == pc \in {"choose", "begin", "account", "output"}
Near(a, b) == FNear(a, b, T9, T7)

\* C01 (with the named deviation made explicit)
Conservation ==
  pc \in {"choose", "begin", "output"} =>
    Near(w.m_s \oplus g.left, ((g.m0 \oplus g.fell) \oplus g.vapour) \oplus g.dev)
\* C02: averages obey the sums of the terms; nothing is exchanged without snow
EnergySums ==
  /\ (pc = "compact" /\ w.layer_count = 0)
       => \A x \in AveragedTerms : FEq(e[x], Zero)
  /\ pc = "output" =>
       \A x \in AveragedTerms : FNear(acc.avg[x] \otimes FI(D), g.sums[x], T9, F("1e-3"))
\* C03: the energy received is found again as cold content and melt less refreezing
\* (a lower layer that vanished since the fluxes were taken keeps its conducted heat)
EnergySpent ==
  (pc = "depth" /\ w.sc /\ (w.layer_count = 2 \/ FEq(e.G, e.G_0))) =>
    LET b == g.before
        got == (CoverSum(e) \otimes dt) \oplus (b.cc_s_0 \oplus b.cc_s_l)
        refrozen == (b.h2o_total \oplus w.melt) \ominus w.h2o_total
        spent == (w.cc_s_0 \oplus w.cc_s_l) \oplus ((w.melt \ominus refrozen) \otimes LF0)
    IN /\ FNear(got, spent, T9, F("1"))
       /\ w.cc_s_0 \preceq Zero /\ w.cc_s_l \preceq Zero /\ w.melt \succeq Zero
       /\ refrozen \succeq F("-1e-9") /\ w.h2o_total \succeq Zero
\* C04
Temperatures ==
  (Resting /\ clock > 0) =>
    CASE w.layer_count = 0 -> FEq(w.t_s, MIN_TEMP) /\ FEq(w.t_s_0, MIN_TEMP) /\ FEq(w.t_s_l, MIN_TEMP)
      [] w.layer_count = 1 -> /\ w.t_s_0 \preceq FREEZE /\ FEq(w.t_s_l, MIN_TEMP) /\ FEq(w.t_s, w.t_s_0)
                              /\ (FEq(w.cc_s_0, Zero) => FEq(w.t_s_0, FREEZE))
      [] OTHER -> /\ w.t_s_0 \preceq FREEZE /\ w.t_s_l \preceq FREEZE /\ w.t_s \preceq FREEZE
                  /\ (FEq(w.cc_s_0, Zero) => FEq(w.t_s_0, FREEZE))
                  /\ (FEq(w.cc_s_l, Zero) => FEq(w.t_s_l, FREEZE))
\* C05
LayersConsistent ==
  Resting =>
    /\ w.layer_count \in 0..2
    /\ Near(w.z_s, w.z_s_0 \oplus w.z_s_l) /\ Near(w.m_s, w.m_s_0 \oplus w.m_s_l)
    /\ Near(w.m_s, w.rho \otimes w.z_s)
    /\ \A x \in {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho"} : w[x] \succeq Zero
    /\ w.layer_count = 0 => \A x \in {"z_s", "m_s", "rho", "h2o", "h2o_sat", "h2o_vol", "cc_s_0", "cc_s_l"} :
                              FEq(w[x], Zero)
    /\ w.layer_count = 1 => FEq(w.z_s_l, Zero) /\ FEq(w.cc_s_l, Zero)
    /\ w.layer_count = 2 => FEq(w.z_s_0, Config.max_z0) /\ w.z_s_l \succ Zero
    /\ w.z_s_0 \succ Config.max_z0 =>
         w.layer_count = 1 /\ ((w.z_s \ominus Config.max_z0) \otimes w.rho) \prec Config.thr[3]
\* C06: a snowcover that has just been given layers weighs more than the minimum
LayerRules ==
  /\ (pc \in {"melt", "vapour", "wet", "drain"} /\ ~FEq(w.z_s, g.before.z_s) /\ w.layer_count > 0)
       => w.m_s \succ Config.thr[3]
\* C07
WaterHeldWithinCapacity ==
  Resting => /\ w.h2o \succeq Zero
             /\ w.h2o \preceq (w.h2o_max \oplus T9)
             /\ w.h2o_sat \preceq (One \oplus T9)
             /\ w.swi \succeq Zero
             /\ (w.layer_count > 0 /\ w.h2o_max \succ Zero) => Near(w.h2o_sat \otimes w.h2o_max, w.h2o)
             /\ Near(w.h2o_vol, w.h2o_sat \otimes Config.max_h2o)
\* C08
DensityRules ==
  /\ (pc = "precip" /\ w.sc) => (w.rho \succeq g.before.rho /\ w.z_s \preceq g.before.z_s)
  /\ (pc = "precip" /\ w.sc /\ g.before.rho \succeq F("550")) => w.rho = g.before.rho
  /\ (pc = "drain" /\ w.sc) => w.rho \succeq g.before.rho
  /\ (pc \in {"precip", "drain"} /\ w.sc) => FEq(w.m_s, g.before.m_s)
  /\ w.rho \preceq F("600.0000001")
\* C09
VapourRules ==
  /\ w.h2o_total \succeq Zero
  /\ (pc = "wet" /\ ~g.before.sc) => FEq(w.E_s, Zero)
  /\ (pc = "wet" /\ w.sc) => Near(w.m_s, g.before.m_s \oplus w.E_s)
  /\ (pc = "wet" /\ w.sc /\ FEq(g.before.h2o_total, Zero)) => FEq(w.h2o_total, Zero)
\* C10
Tiling ==
  /\ tau \in 0..D
  /\ (pc \in {"choose", "output"} /\ g.n > 0) => tau = D
  /\ clock = IF g.n = 0 THEN 0 ELSE (g.n - 1) * D + tau
  /\ pc = "begin" => tau = pos[1] * Dts[1] + (IF pos[2] = -1 THEN 0 ELSE pos[2] * Dts[2])
                           + (IF pos[3] = -1 THEN 0 ELSE pos[3] * Dts[3])
  /\ g.steps <= D \div Dts[3]
  /\ (w.layer_count = 0 /\ pc = "energy" /\ pos[2] = -1) => lvl = 1
\* C11: all of the precipitation, and no more, is delivered
EvenPrecip == pc = "output" => Near(g.given, FMax(Weather[r1].m_pp, Zero))
\* C12: what falls is rain and snow, at temperatures that fit
PrecipRules ==
  pc = "energy" =>
    /\ Near(f.m_snow \oplus f.m_rain, f.m_pp)
    /\ f.m_snow \succeq Zero /\ f.m_rain \succeq Zero
    /\ (f.m_rain \succ Zero) => f.t_rain \succeq FREEZE
    /\ (f.m_snow \succ Zero) => (f.t_snow \preceq FREEZE /\ f.z_snow \succ Zero)
    /\ (f.m_snow \succ Zero /\ f.m_rain \succ Zero) => (FEq(f.t_snow, FREEZE) /\ FEq(f.sat_snow, One))
    /\ ~f.precip => FEq(f.m_pp, Zero)
\* C15: the exchange satisfies its equations and goes downhill
ExchangeRules ==
  (pc = "compact" /\ w.layer_count > 0) =>
    LET x == Exchange(ExchangeArgs(Config, w, f))
        vap == e.L_v_E \oslash LhSurface(w.t_s_0)
    IN /\ Consistent(x, e.ustar, e.H, vap, F("0.002"))
       /\ (x.dT \otimes e.H) \succeq Zero /\ (x.dq \otimes e.L_v_E) \succeq Zero
\* C16: sensor heights above the snow surface
HeightRules ==
  (pc = "energy" /\ w.layer_count > 0) =>
    LET h == Heights(Config, w)
    IN /\ h.u \succ Config.z_0 /\ h.t \succ Config.z_0
       /\ Near(h.u \oplus (IF Config.relative THEN Zero ELSE w.z_s), Config.z_u)
       /\ Near(h.t \oplus (IF Config.relative THEN Zero ELSE w.z_s), Config.z_t)
\* C17: heat is conducted from warm to cold, nothing is advected in dry weather
ConductionRules ==
  (pc = "compact" /\ w.layer_count > 0) =>
    LET tl == IF w.layer_count = 2 THEN w.t_s_l ELSE w.t_s_0
    IN /\ ((f.t_g \ominus tl) \otimes e.G) \succeq Zero
       /\ FEq(f.t_g, tl) => FEq(e.G, Zero)
       /\ w.layer_count = 2 => ((w.t_s_l \ominus w.t_s_0) \otimes e.G_0) \succeq Zero
       /\ ~f.precip => FEq(e.M, Zero)
\* C20: the initial snowcover weighs what it was said to, cold as it was said to be
StartRules ==
  (pc = "choose" /\ g.n = 0 /\ w.layer_count > 0) =>
    /\ Near(w.m_s, w.rho \otimes w.z_s)
    /\ Near(w.cc_s_0, ColdContent(w.t_s_0, w.m_s_0))
    /\ w.layer_count = 2 => Near(w.cc_s_l, ColdContent(w.t_s_l, w.m_s_l))
    /\ Near(w.h2o, w.h2o_sat \otimes w.h2o_max)
    /\ w.m_s \succ Config.thr[3]
\* C21: nothing but turbulence that does not settle (C15) stops the run, and
\* everything stays a number
NeverStops ==
  /\ pc = "stopped" => (~e.ok /\ e.n = ITMAX)
  /\ \A x \in {"z_s", "rho", "m_s", "t_s", "t_s_0", "t_s_l", "cc_s_0", "cc_s_l", "h2o",
              "h2o_total", "h2o_sat", "h2o_max", "h2o_vol", "melt", "E_s", "swi"} : FFinite(w[x])
  /\ \A x \in AveragedTerms : FFinite(e[x])
\* C13: an output covers its data step completely
OutputTotals == pc = "output" => (acc.secs = D /\ g.steps >= NormalPerData)
=============================================================================
