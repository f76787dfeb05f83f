---------------------------- MODULE SnobalTrace ----------------------------
(* Are recorded executions of the implementation behaviours of the model?   *)
(*                                                                          *)
(* One TLC state per recorded run step.  The state before a step is the one *)
(* the implementation reported, the forcing is what the specification       *)
(* interpolates between the two input records; the step is then compared    *)
(* with what SnowPhysics allows.  Quantities that an earlier phase of the   *)
(* same step determines (fluxes, melt, vapour, released water) are taken    *)
(* from the record once they have been compared, so that each clause judges *)
(* its own rule.  Verdicts are total: every violated clause is printed with *)
(* the property it belongs to, and the walk continues.                      *)
EXTENDS SnowPhysics, TLC

CONSTANT Files     \* sequence of file names

RECURSIVE Load(_)
Load(fs) == IF fs = <<>> THEN <<>> ELSE LoadValue(Head(fs)) \o Load(Tail(fs))
Traces == Load(Files)

VARIABLES t,      \* trace
          d, k,   \* data step, run step in it (next to be checked)
          tau,    \* seconds into the data step
          pos,    \* position in the division of the data step
          ws,     \* start of the next turbulence iteration
          tags, nbad
vars == <<t, d, k, tau, pos, ws, tags, nbad>>

Tr == Traces[t]
Cfg0 == [i \in DOMAIN Traces |->
          LET g == Traces[i].cfg
          IN [max_h2o |-> g.max_h2o, max_z0 |-> g.max_z0, thr |-> g.thr,
              P_a |-> AirPressure(g.elevation), z_u |-> g.z_u, z_t |-> g.z_t,
              z_g |-> g.z_g, relative |-> g.relative, z_0 |-> g.z_0, bias |-> 0]]

----------------------------------------------------------------------------
R8 == F("1e-8")
R9 == F("1e-9")
A6 == F("1e-6")
A7 == F("1e-7")
A9 == F("1e-9")

\* a violated clause: property, clause, what was expected and recorded
V(ok, props, clause, want, got) ==
  IF ok THEN {}
  ELSE {<<p, clause, FShow(want), FShow(got)>> : p \in props}
VN(want, got, rel, abs, props, clause) ==
  V(FNear(want, got, rel, abs), props, clause, want, got)
VB(ok, props, clause) == V(ok, props, clause, Zero, Zero)

Fields == {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho", "t_s", "t_s_0", "t_s_l",
           "cc_s_0", "cc_s_l", "h2o", "h2o_max", "h2o_sat", "h2o_vol", "R_n", "H", "L_v_E",
           "G", "G_0", "M", "delta_Q", "delta_Q_0", "E_s", "melt", "swi"}

\* the record is well formed: everything is a finite number
Finite(q) == UNION {VB(FFinite(q[x]), {"C21"}, "finite " \o x) : x \in Fields}

----------------------------------------------------------------------------
(* C05: the record in itself                                                *)
Structure(c, q) ==
  LET n == q.layer_count
      P == {"C05"}
      tol == F("1e-9")
  IN VB(n \in 0..2, P, "layer count")
     \cup VN(q.z_s_0 \oplus q.z_s_l, q.z_s, tol, tol, P, "depth is the sum of layers")
     \cup VN(q.m_s_0 \oplus q.m_s_l, q.m_s, tol, tol, P, "mass is the sum of layers")
     \cup VN(q.rho \otimes q.z_s_0, q.m_s_0, tol, tol, P, "surface mass is density times depth")
     \cup VN(q.rho \otimes q.z_s_l, q.m_s_l, tol, tol, P, "lower mass is density times depth")
     \cup UNION {VB(q[x] \succeq Zero, P, x \o " is not negative") :
                   x \in {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho"}}
     \cup (IF n = 0
           THEN UNION {V(FEq(q[x], Zero), P, x \o " without snow", Zero, q[x]) :
                   x \in {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho", "cc_s_0",
                          "cc_s_l", "h2o", "h2o_vol", "h2o_sat"}}
           ELSE VB(q.z_s_0 \succ Zero /\ q.m_s_0 \succ Zero /\ q.rho \succ Zero, P, "surface layer exists")
                \cup (IF n = 2
                      THEN VB(q.z_s_l \succ Zero, P, "lower layer exists")
                           \cup VN(c.max_z0, q.z_s_0, tol, tol, P, "active depth")
                      ELSE V(FEq(q.z_s_l, Zero), P, "no lower layer", Zero, q.z_s_l)
                           \cup V(\/ q.z_s_0 \preceq (c.max_z0 \oplus tol)
                                  \/ ((q.z_s \ominus c.max_z0) \otimes q.rho) \preceq (c.thr[3] \oplus R8),
                                  P, "one layer deeper than the active depth", c.max_z0, q.z_s_0)))

(* C04, C03, C07: parts that hold of every record                           *)
Standing(q) ==
  LET n == q.layer_count
      Layer(cc, tt, who) ==
        V(tt \preceq FREEZE, {"C04"}, who \o " above freezing", FREEZE, tt)
        \cup V(cc \preceq Zero, {"C03"}, who \o " cold content positive", Zero, cc)
        \cup V(FEq(cc, Zero) => FEq(tt, FREEZE), {"C04"}, who \o " without cold content", FREEZE, tt)
  IN V(q.h2o \succeq Zero, {"C07"}, "liquid water negative", Zero, q.h2o)
     \cup (IF n = 0 THEN VN(MIN_TEMP, q.t_s_0, R9, Zero, {"C04"}, "no surface temperature")
                         \cup VN(MIN_TEMP, q.t_s, R9, Zero, {"C04"}, "no snow temperature")
           ELSE Layer(q.cc_s_0, q.t_s_0, "surface layer"))
     \cup (IF n = 2 THEN Layer(q.cc_s_l, q.t_s_l, "lower layer")
           ELSE VN(MIN_TEMP, q.t_s_l, R9, Zero, {"C04"}, "no lower temperature"))
     \cup (IF n = 1 THEN VN(q.t_s_0, q.t_s, R9, Zero, {"C04"}, "one layer, one temperature") ELSE {})

----------------------------------------------------------------------------
(* Energy of the step                                                       *)

ETerms == {"R_n", "H", "L_v_E", "G", "G_0", "M", "delta_Q", "delta_Q_0"}

ESums(p, q) ==
  IF p.layer_count = 0
  THEN UNION {V(FEq(q[x], Zero), {"C02"}, x \o " without snow at the start", Zero, q[x]) : x \in ETerms}
  ELSE LET big == FMax(FMax(FAbs(q.R_n), FAbs(q.H)),
                       FMax(FMax(FAbs(q.L_v_E), FAbs(q.G)), FMax(FAbs(q.G_0), FAbs(q.M))))
           tol == A9 \oplus (R9 \otimes big)
       IN VN(SurfaceSum(q), q.delta_Q_0, Zero, tol, {"C02"}, "surface layer sum")
          \cup VN(CoverSum(q), q.delta_Q, Zero, tol, {"C02"}, "snowcover sum")
          \cup (IF p.layer_count = 1 THEN VN(q.G, q.G_0, R9, A9, {"C02"}, "one layer, one conducted flux")
                ELSE {})

ConstantPair(r1, r2) ==
  \A x \in {"S_n", "I_lw", "t_a", "e_a", "u", "t_g"} : FEq(r1[x], r2[x])

NearFreeze(x) == FNear(x, FREEZE, F("1e-12"), F("1e-9"))
SoilOk(c, p, f, exact, got) ==
  \/ FNear(SoilHeat(c, p, f.t_g), got, R8, A7)
  \/ /\ ~exact /\ NearFreeze(f.t_g)
     /\ \E tg \in {FREEZE, FREEZE \ominus F("1e-9"), FREEZE \oplus F("1e-9")} :
          FNear(SoilHeat(c, p, tg), got, R8, A6)

TurbRel == F("2e-4")
TurbAbs == F("2e-3")
TurbNear(h, le, q) == FNear(h, q.H, TurbRel, TurbAbs) /\ FNear(le, q.L_v_E, TurbRel, TurbAbs)
\* converges too slowly for the outcome to be determined
Unsettled(fx) == ~fx.ok \/ fx.n > 30
TurbOk(c, p, f, fx, q) ==
  \/ TurbNear(fx.H, fx.L_v_E, q)
  \/ Unsettled(fx)
  \/ LET t0 == Turbulent(Exchange(ExchangeArgs(c, p, f)), NoStart)
     IN TurbNear(t0.h, LhSurface(p.t_s_0) \otimes t0.e, q) \/ ~t0.ok \/ t0.n > 30

\* wanders for good, from the last solution and from neutral: a result of it
\* must not be used (C15)
Wanders(s) == ~s.ok /\ s.gap \succ F("0.01")
Hopeless(c, p, f, fx) ==
  /\ p.layer_count > 0 /\ Wanders(fx)
  /\ Wanders(Turbulent(Exchange(ExchangeArgs(c, p, f)), NoStart))

\* C21: what cannot be calculated is refused, not simulated
Refused(c, p, f, by) == p.layer_count > 0 /\ ExchangeRefused(ExchangeArgs(c, p, f), by)
Vague(c, p, f) == p.layer_count > 0 /\ ExchangeVague(ExchangeArgs(c, p, f))

\* direction of the exchange: toward the colder / drier side
Direction(c, p, f, q) ==
  LET x == Exchange(ExchangeArgs(c, p, f))
  IN V(((x.dT \otimes q.H) \succeq F("-1e-9")), {"C15"}, "sensible heat direction", x.dT, q.H)
     \cup V((x.dq \otimes q.L_v_E) \succeq F("-1e-9"), {"C15"}, "latent heat direction", x.dq, q.L_v_E)

ETermsOk(c, p, f, fx, st, tau0, const) ==
  IF p.layer_count = 0 THEN {}
  ELSE
    LET q == st.r
        \* later run steps of a data step with varying forcing test the interpolation
        A(props) == IF tau0 \/ const THEN props ELSE {"C11"}
    IN VN(fx.R_n, q.R_n, R9, A7, A({"C17"}), "net radiation")
       \cup V(SoilOk(c, p, f, tau0 \/ const, q.G), A({"C17"}), "soil heat", fx.G, q.G)
       \cup (IF p.layer_count = 2 THEN VN(fx.G_0, q.G_0, R8, A7, {"C17"}, "heat between layers") ELSE {})
       \cup VN(fx.M, q.M, R8, A7, IF tau0 \/ const THEN {"C12", "C17"} ELSE {"C11", "C12"},
               "advected heat")
       \cup (IF Vague(c, p, f) THEN {}
             ELSE
       (IF TurbOk(c, p, f, fx, q) THEN {}
             ELSE V(FNear(fx.H, q.H, TurbRel, TurbAbs), A({"C15"}), "sensible heat", fx.H, q.H)
                  \cup V(FNear(fx.L_v_E, q.L_v_E, TurbRel, TurbAbs), A({"C15"}), "latent heat", fx.L_v_E, q.L_v_E)
                  \cup (IF "hx" \in DOMAIN st
                        THEN IF TurbNear(st.hx[1], st.hx[2], q) THEN {}
                             ELSE VB(FALSE, {"C16"}, "exchange at the configured heights")
                                  \cup VB("z_0" \notin DOMAIN Tr \/ FEq(Tr.z_0, c.z_0), {"C20"},
                                          "exchange over the roughness given")
                        ELSE {}))
       \cup VB(~Hopeless(c, p, f, fx), {"C15"}, "result of an exchange that does not converge is used")
       \cup Direction(c, p, f, q))

----------------------------------------------------------------------------
(* Mass of the step                                                         *)

Chain(c, p, f, dt, q) ==
  LET w0 == Begin(p)
      w2 == Precipitate(TimeCompact(w0, c, dt), f, c)
      wm == MeltEnergy(w2, c, dt, q.delta_Q_0, q.G \ominus q.G_0)
      w3 == MeltDepth([wm EXCEPT !.melt = IF wm.sc THEN q.melt ELSE Zero], c)
      ea == IF w3.sc THEN (q.L_v_E \oslash LhSurface(p.t_s_0)) \otimes dt ELSE Zero
      es == IF w3.sc THEN SoilVapour(w3, f, c, dt) ELSE Zero
      w4 == Exchanged(w3, c, ea, q.E_s \ominus ea)
      w5 == WetCompact(w4, f, c)
      w6 == Drain(w5, c)
  IN [m |-> wm, melt |-> wm.melt, wet |-> w3.h2o_total, E_s |-> IF w3.sc THEN FMax(ea \oplus es, FNeg(w3.m_s)) ELSE Zero, sc3 |-> w3.sc,
      w4 |-> w4, w5 |-> w5, w6 |-> w6, w7 |-> Temper(w6)]

MassClauses(c, p, f, dt, q, ch) ==
  LET w == ch.w7
      n == q.layer_count
      moved == "moved" \in w.tags     \* a layer came or went
      m_in == (p.m_s \oplus f.m_pp) \oplus q.E_s
      gone == q.m_s \oplus q.swi
      tolm == A9 \oplus (R9 \otimes FMax(p.m_s, f.m_pp))
      balanced == FNear(m_in, gone, Zero, tolm)
      kf1 == FreshWaterReleasedTwice(w) /\ FNear(m_in \oplus q.h2o, gone, Zero, tolm)
      fresh == ~w.sc /\ w.layer_count > 0
      same == w.layer_count = n
      liquid == ch.w5.h2o_total
      dry == ((q.m_s \oplus q.swi) \ominus liquid) \oslash q.z_s
      cap == WaterHeld(q.z_s, dry, c.max_h2o)
      out == FMax(liquid \ominus cap, Zero)
      LP == {"C07"} \cup (IF "refroze" \in w.tags THEN {"C03"} ELSE {})
               \cup (IF ch.wet \succ Zero THEN {"C09"} ELSE {})
  IN V(balanced \/ kf1, {"C01"}, "water balance", m_in, gone)
     \cup VN(ch.melt, q.melt, R8, A9, {"C03"}, "melt")
     \cup V(q.melt \succeq Zero, {"C03"}, "melt negative", Zero, q.melt)
     \cup VN(ch.E_s, q.E_s, R8, F("1e-11"), {"C09"}, "vapour exchange")
     \cup V(same, IF n > 0 /\ w.layer_count > 0 THEN {"C05", "C06"} ELSE {"C06"}, "number of layers", FI(w.layer_count), FI(n))
     \cup (IF ~same THEN {}
           ELSE IF n = 0
           THEN VN(w.swi, q.swi, R8, A7, {"C07", "C06"}, "everything is released")
                \cup (IF p.layer_count < 2 THEN {}
                      ELSE V(FEq(q.m_s_l, Zero) /\ FEq(q.cc_s_l, Zero), {"C06"}, "nothing left of the lower layer",
                             Zero, q.m_s_l)
                           \cup VN(MIN_TEMP, q.t_s_l, R9, Zero, {"C06"}, "lower temperature without snow"))
           ELSE IF fresh
           THEN VN(w.z_s, q.z_s, R9, A9, {"C06"}, "depth of a new snowcover")
                \cup VN(w.rho, q.rho, R9, A9, {"C06"}, "density of a new snowcover")
                \cup VN(w.t_s_0, q.t_s_0, R9, A9, {"C06"}, "temperature of a new snowcover")
                \cup VN(w.t_s, q.t_s, R9, A9, {"C06"}, "temperature of a new snowcover")
                \cup VN(w.t_s_l, q.t_s_l, R9, A9, {"C06"}, "lower temperature of a new snowcover")
                \cup VN(w.cc_s_0, q.cc_s_0, R8, A6, {"C06"}, "cold content of a new snowcover")
                \cup VN(w.cc_s_l, q.cc_s_l, R8, A6, {"C06"}, "lower cold content of a new snowcover")
                \cup VN(w.h2o, q.h2o, R8, A9, {"C06", "C07"}, "wetness of a new snowcover")
                \cup VN(w.h2o_sat, q.h2o_sat, R8, A9, {"C06"}, "saturation of a new snowcover")
                \cup VN(w.h2o_vol, q.h2o_vol, R8, A9, {"C07"}, "water content of a new snowcover")
                \cup V(\/ FNear(w.swi, q.swi, R8, A7)
                       \/ FNear(w.swi \ominus w.h2o, q.swi, R8, A7), {"C07"}, "water released", w.swi, q.swi)
           ELSE VN(w.z_s, q.z_s, R8, A9, {"C08"}, "depth")
                \cup V(q.rho \preceq F("600.000001"), {"C08"}, "density limit", F("600"), q.rho)
                \cup VN(w.cc_s_0, q.cc_s_0, R8, F("1e-3"), IF moved THEN {"C03", "C06"} ELSE {"C03"}, "surface cold content")
                \cup VN(w.cc_s_l, q.cc_s_l, R8, F("1e-3"), IF moved THEN {"C06"} ELSE {"C03"}, "lower cold content")
                \cup VN(liquid \ominus out, q.h2o, R8, A7, LP, "liquid water held")
                \cup VN(out, q.swi, R8, A7, LP, "water released")
                \cup VN(cap, q.h2o_max, R8, A7, {"C07"}, "capacity")
                \cup V(q.h2o \preceq (q.h2o_max \oplus A9), {"C07"}, "held beyond capacity", q.h2o_max, q.h2o)
                \cup VN(IF q.h2o_max \succ Zero THEN q.h2o \oslash q.h2o_max ELSE q.h2o_sat,
                        q.h2o_sat, R8, A9, {"C07"}, "saturation")
                \cup VN(q.h2o_sat \otimes c.max_h2o, q.h2o_vol, R8, A9, {"C07"}, "volumetric content")
                \cup VN(LayerTemp(q.m_s_0, ch.w6.t_s_0, q.cc_s_0), q.t_s_0, R9, A9, {"C04"}, "surface temperature")
                \cup (IF n = 2
                      THEN VN(LayerTemp(q.m_s_l, ch.w6.t_s_l, q.cc_s_l), q.t_s_l, R9, A9,
                              IF moved THEN {"C04", "C06"} ELSE {"C04"}, "lower temperature")
                           \cup VN(LayerTemp(q.m_s, ch.w6.t_s, q.cc_s_0 \oplus q.cc_s_l), q.t_s, R9, A9, {"C04"}, "average temperature")
                      ELSE {}))

\* C20: the snowcover a run starts from is the one it was given
StartOk(c, ic, q) ==
  LET w == Start([Begin(q) EXCEPT !.z_s = ic.z_s, !.rho = ic.rho, !.t_s = ic.t_s, !.t_s_0 = ic.t_s_0,
                    !.t_s_l = ic.t_s_l, !.h2o_sat = ic.h2o_sat, !.h2o_total = Zero, !.sc = FALSE], c)
      P == {"C20"}
  IN V(w.layer_count = q.layer_count, P, "layers of the initial snowcover", FI(w.layer_count), FI(q.layer_count))
     \cup (IF w.layer_count # q.layer_count THEN {}
           ELSE UNION {VN(w[x], q[x], R9, A9, P, "initial " \o x) :
                   x \in {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho", "h2o"}
                         \cup (IF w.layer_count = 0 THEN {}
                               ELSE {"t_s", "t_s_0", "t_s_l", "h2o_sat", "h2o_max", "h2o_vol"})}
                \cup VN(w.cc_s_0, q.cc_s_0, R8, F("1e-3"), P, "initial cc_s_0")
                \cup VN(w.cc_s_l, q.cc_s_l, R8, F("1e-3"), P, "initial cc_s_l"))
StartVerdict(c, ic, q) ==
  LET v == StartOk(c, ic, q)
  IN IF v = {} THEN v
     ELSE IF StartOk([c EXCEPT !.bias = 1], ic, q) = {} \/ StartOk([c EXCEPT !.bias = -1], ic, q) = {}
     THEN {} ELSE v

\* comparisons that rounding can turn either way are tried both ways
MassVerdict(c, p, f, dt, q) ==
  LET Try(b) == MassClauses([c EXCEPT !.bias = b], p, f, dt, q, Chain([c EXCEPT !.bias = b], p, f, dt, q))
      v == Try(0)
  IN IF v = {} THEN v
     ELSE IF Try(1) = {} \/ Try(-1) = {} THEN {} ELSE v

----------------------------------------------------------------------------
Init == /\ t \in DOMAIN Traces
        /\ d = 1 /\ k = 1 /\ tau = 0 /\ pos = StartOfDataStep
        /\ ws = NoStart /\ tags = {} /\ nbad = 0

\* state before step k of data step d
Before == IF k > 1 THEN Tr.data[d].steps[k - 1].r
          ELSE IF d > 1 THEN LET prev == Tr.data[d - 1].steps IN prev[Len(prev)].r
          ELSE Tr.s0

Report(kind, bad) ==
  \A b \in bad : PrintT("@@" \o ToString(<<kind, Tr.id, d, k, b>>))

\* The step was far too long for the mass of the snow (explicit integration):
\* temperatures that no longer mean anything.  A matter of the configuration.
Overshot(p) == p.layer_count > 0 /\ (p.t_s_0 \prec F("170") \/ (p.layer_count = 2 /\ p.t_s_l \prec F("170")))

RunStep ==
  /\ d <= Len(Tr.data) /\ k <= Len(Tr.data[d].steps)
  /\ LET D  == Tr.data[d]
         st == D.steps[k]
         p  == Before
         q  == st.r
         c  == Cfg0[t]
         dts == Tr.dts
         lvl == LevelAt(pos, p, c)
         want == dts[lvl]
         dt == FI(st.dt)
         f  == Forcing(D.r1, D.r2, FI(tau), dt, FI(Tr.D))
         fx == Fluxes(c, p, f, dt, ws)
         const == ConstantPair(D.r1, D.r2)
         ch == Chain(c, p, f, dt, q)
         fin == Finite(q)
         \* a step of the wrong length says nothing about the rest
         timing == VB(st.dt = want, {"C10"}, "length of the run step, level " \o ToString(lvl))
         first == d = 1 /\ k = 1
         start == IF first /\ "ic" \in DOMAIN Tr THEN StartVerdict(c, Tr.ic, p) ELSE {}
         refused == VB(~Refused(c, p, f, FNeg(A9)), {"C21"}, "simulated with input that must be refused")
         bad == start \cup refused \cup IF refused # {} THEN {} ELSE IF fin # {} THEN (IF Overshot(p) THEN {} ELSE fin)
                ELSE timing
                     \cup (IF timing # {} \/ tau + st.dt > Tr.D THEN {}
                           ELSE ETermsOk(c, p, f, fx, st, tau = 0, const))
                     \cup ESums(p, q) \cup Structure(c, q) \cup Standing(q)
                     \cup MassVerdict(c, p, f, dt, q)
         kf == IF fin = {} /\ FreshWaterReleasedTwice(ch.w7) /\ q.layer_count > 0 /\ q.h2o \succ Zero
                  /\ ~FNear((p.m_s \oplus f.m_pp) \oplus q.E_s, q.m_s \oplus q.swi, Zero,
                            A9 \oplus (R9 \otimes FMax(p.m_s, f.m_pp)))
               THEN {"KF1"} ELSE {}
     IN /\ IF nbad < 40 THEN Report("V", bad) ELSE TRUE
        /\ nbad' = nbad + Cardinality(bad)
        /\ tags' = IF fin # {} THEN tags
                   ELSE tags \cup ch.w7.tags \cup kf \cup {"level" \o ToString(lvl), "turb-" \o fx.stab}
                          \cup (IF first THEN {"start" \o ToString(p.layer_count)} ELSE {})
                          \cup (IF Unsettled(fx) THEN {"turb-unsettled"} ELSE {})
                          \cup (IF f.e_a \succ SatVP(f.t_a) /\ p.layer_count > 0 THEN {"vapour-capped"} ELSE {})
        /\ ws' = IF p.layer_count = 0 THEN ws
                 ELSE [has |-> ~FEq(fx.ustar, Zero), ustar |-> fx.ustar, factor |-> fx.factor]
        /\ pos' = Advance(pos, lvl, dts)
        /\ tau' = tau + st.dt
        /\ k' = k + 1
        /\ UNCHANGED <<t, d>>

\* end of a data step: complete, or stopped by an error
EndStep ==
  /\ d <= Len(Tr.data) /\ k > Len(Tr.data[d].steps)
  /\ LET D == Tr.data[d]
         c == Cfg0[t]
         stopped == D.end # "ok"
         p == Before
         f == Forcing(D.r1, D.r2, FI(tau), FI(1), FI(Tr.D))
         fx == Fluxes(c, p, f, FI(1), ws)
         refused == p.layer_count > 0 /\ (Refused(c, p, f, A9) \/ Vague(c, p, f))
         from == IF d > 1 THEN LET prev == Tr.data[d - 1].steps IN prev[Len(prev)].r ELSE Tr.s0
         capped == from.layer_count > 0 /\ (D.r1.e_a \ominus A6) \succ SatVP(D.r1.t_a)
         excused == p.layer_count > 0 /\ tau < Tr.D /\ (Unsettled(fx) \/ Overshot(p) \/ refused)
         bad == IF stopped
                THEN VB(excused, {"C21"}, "stopped by " \o D.end)
                     \cup (IF excused THEN {} ELSE VB(FALSE, {"stop"}, "stopped by " \o D.end))
                ELSE VB(tau = Tr.D, {"C10"}, "run steps cover the data step")
                     \cup VB(capped => D.warned, {"C21"}, "vapour pressure above saturation without a warning")
                     \cup VB(D.r2same, {"C11"}, "second input record changed")
     IN /\ Report("V", bad)
        /\ nbad' = nbad + Cardinality(bad)
        /\ tags' = tags \cup (IF ~stopped THEN {} ELSE IF refused THEN {"stopped-refused"}
                         ELSE IF Unsettled(fx) THEN {"stopped-turb-unsettled"}
                         ELSE {"stopped-overshot"})
  /\ d' = d + 1 /\ k' = 1 /\ tau' = 0 /\ pos' = StartOfDataStep
  /\ UNCHANGED <<t, ws>>

Finish ==
  /\ d = Len(Tr.data) + 1 /\ k = 1
  /\ PrintT("@@" \o ToString(<<"END", Tr.id, nbad, tags>>))
  /\ k' = 2
  /\ UNCHANGED <<t, d, tau, pos, ws, tags, nbad>>

Next == RunStep \/ EndStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
