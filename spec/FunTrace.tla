------------------------------ MODULE FunTrace ------------------------------
(* Direct calls of the model's physical relations, compared with Thermo.    *)
(* A call is [fn, a (arguments), out (results), raised]; array arguments    *)
(* are recorded element by element, so that array and scalar forms answer   *)
(* to the same definition.                                                  *)
EXTENDS Thermo, TLC, Sequences, FiniteSets

CONSTANT Files
RECURSIVE Load(_)
Load(fs) == IF fs = <<>> THEN <<>> ELSE LoadValue(Head(fs)) \o Load(Tail(fs))
Traces == Load(Files)

VARIABLES t, k, nbad, tags
vars == <<t, k, nbad, tags>>
Tr == Traces[t]

R == F("1e-9")
V(ok, props, clause, want, got) ==
  IF ok THEN {} ELSE {<<p, clause, FShow(want), FShow(got)>> : p \in props}
VB(ok, props, clause) == V(ok, props, clause, Zero, Zero)

\* <<known, value, properties>> of the relation fn at a
Rel(fn, a) ==
  CASE fn = "sati" -> <<SatVP(a[1]), {"C22"}>>
    [] fn = "satw" -> <<SatWater(a[1]), {"C22"}>>
    [] fn = "spec_hum" -> <<SpecHum(a[1], a[2]), {"C22"}>>
    [] fn = "mix_ratio" -> <<MixRatio(a[1], a[2]), {"C22"}>>
    [] fn = "lh_vap" -> <<LhVap(a[1]), {"C22"}>>
    [] fn = "lh_fus" -> <<LhFus(a[1]), {"C22"}>>
    [] fn = "lh_sub" -> <<LhSub(a[1]), {"C22"}>>
    [] fn = "cp_ice" -> <<CpIce(a[1]), {"C22"}>>
    [] fn = "cp_water" -> <<CpWater(a[1]), {"C22"}>>
    [] fn = "gas_density" -> <<GasDensity(a[1], a[2], a[3]), {"C22"}>>
    [] fn = "virtual_temperature" -> <<VirtualTemp(a[1], a[2], a[3]), {"C22"}>>
    [] fn = "diffusion_coef" -> <<Diffusion(a[1], a[2]), {"C22"}>>
    [] fn = "vapor_flux" -> <<VaporFlux(a[1], a[2], a[3], a[4]), {"C22", "C09"}>>
    [] fn = "hysat" -> <<HySat(a[1], a[2], a[3], a[4], a[5], a[6]), {"C22"}>>
    [] fn = "k_to_c" -> <<a[1] \ominus FREEZE, {"C22"}>>
    [] fn = "time_average" -> <<TimeAverage(a[1], a[2], a[3], a[4]), {"C13"}>>
    [] fn = "h2o_left" -> <<WaterHeld(a[1], a[2], a[3]), {"C07"}>>
    [] fn = "melt" -> <<MeltMass(a[1]), {"C03"}>>
    [] fn = "new_tsno" -> <<LayerTemp(a[1], a[2], a[3]), {"C04"}>>
    [] fn = "heat_stor" -> <<HeatStored(a[1], a[2], a[3]), {"C17"}>>
    [] fn = "efcon" -> <<EffConductivity(a[1], a[2], a[3], SatVP(a[2])), {"C17"}>>
    [] fn = "ssxfr" -> <<SteadyConduction(a[1], a[2], a[3], a[4], a[5], a[6]), {"C17"}>>
    [] fn = "kts" -> <<SnowConductivity(a[1]), {"C17"}>>
    [] fn = "dry_snow_density" -> <<DryDensity(a[1], a[2]), {"C07"}>>
    [] fn = "psi-m" -> <<PsiM(a[1]), {"C15"}>>
    [] fn = "psi-h" -> <<PsiH(a[1]), {"C15"}>>

\* magnitude below which a difference of terms is rounding
Floor(fn, a) ==
  CASE fn = "k_to_c" -> F("1e-9")
    [] fn = "cp_water" -> F("1e-6")
    [] fn = "psi-m" -> F("1e-9")
    [] fn = "psi-h" -> F("1e-12")
    [] fn = "time_average" ->
         F("1e-12") \otimes (FAbs(a[1]) \oplus FAbs(a[3]))
    [] fn = "ssxfr" -> F("1e-12") \otimes FAbs((a[1] \otimes FREEZE) \oslash (a[5] \oplus a[6]))
    [] OTHER -> F("1e-300")

\* a cell without a value gives none, a temperature below absolute zero neither
NoValue(fn, a) == \/ \E j \in DOMAIN a : ~FFinite(a[j])
                  \/ fn \in {"sati", "satw"} /\ a[1] \prec Zero

Plain(c) ==
  IF c.raised # "" /\ c.fn \in {"psi-m", "psi-h"} THEN {}      \* an internal of hle1
  ELSE LET many == c.many
           also == IF many THEN {"C25"} ELSE {}
       IN IF c.raised # ""
          THEN VB(FALSE, IF many THEN also ELSE Rel(c.fn, c.a[1])[2] \cup {"C21"}, c.fn \o " raised " \o c.raised)
          ELSE IF Len(c.out) # Len(c.a) THEN VB(FALSE, {"C25"}, c.fn \o " of an array: number of values")
          ELSE VB(~many \/ c.same, {"C25"}, c.fn \o " of an array: its arguments are left alone")
               \cup UNION {IF NoValue(c.fn, c.a[i])
                           THEN VB(~FFinite(c.out[i]), {"C25"}, c.fn \o " of an array: a cell without value")
                           ELSE
                           LET r == Rel(c.fn, c.a[i])
                           IN V(FNear(r[1], c.out[i], R, Floor(c.fn, c.a[i])), r[2] \cup also,
                                c.fn \o (IF many THEN " of an array" ELSE ""), r[1], c.out[i])
                             : i \in DOMAIN c.a}

\* increasing with temperature
Rising(c) ==
  IF c.raised # "" THEN {}
  ELSE UNION {V(c.out[i] \prec c.out[i + 1], {"C22"}, "saturation pressure increases", c.out[i], c.out[i + 1])
              : i \in 1..(Len(c.out) - 1)}

----------------------------------------------------------------------------
(* Turbulent exchange                                                       *)
\* a = <<press, ta, ts, za, ea, es, zq, u, zu, z0>>
ArgsOf(a) == [press |-> a[1], ta |-> a[2], ts |-> a[3], za |-> a[4], ea |-> a[5], es |-> a[6],
              zq |-> a[7], u |-> a[8], zu |-> a[9], z0 |-> a[10]]
Refuse(a) == ExchangeRefused(ArgsOf(a), Zero)
Vague(a) == ExchangeVague(ArgsOf(a))
Rel4 == F("2e-4")
SameFlux(s, c) ==
  FNear(s.h, c.out[1], Rel4, F("2e-3")) /\ FNear(s.e, c.out[3], Rel4, F("1e-9"))

\* a claimed solution: one more substitution leaves it where it is; friction
\* velocity is the one its stability length implies
Claim(x, c) ==
  IF Calm(x) THEN FEq(c.out[1], Zero) /\ FEq(c.out[3], Zero)
  ELSE Consistent(x, c.out[5], c.out[1], c.out[3], F("1e-3"))

Flux(c) ==
  LET a == c.a[1]
      x == Exchange(ArgsOf(a))
      s0 == Turbulent(x, NoStart)
      s1 == Turbulent(x, [has |-> c.has, ustar |-> c.start[1], factor |-> c.start[2]])
      settled == s1.ok /\ s1.n <= 30
      hopeless == ~s1.ok /\ ~s0.ok
      claims == FEq(c.out[4], Zero)
      lv == LhSurface(a[3])
  IN IF Refuse(a) THEN VB(c.raised # "", {"C21"}, "hle1 accepts " \o c.note)
     ELSE IF Vague(a) THEN {}
     ELSE IF c.raised # "" THEN VB(FALSE, {"C15", "C21"}, "hle1 raised " \o c.raised)
     ELSE VB(\A i \in {1, 2, 3} : FFinite(c.out[i]), {"C15", "C21"}, "hle1 result is a number")
          \cup VB(settled => claims, {"C15"}, "hle1 reports no convergence")
          \cup (IF ~claims THEN {}
                ELSE V(\/ SameFlux(s1, c) /\ settled
                       \/ SameFlux(s0, c) /\ s0.ok /\ s0.n <= 30
                       \/ Claim(x, c),
                       {"C15"}, IF hopeless THEN "hle1 reports success without a solution"
                                ELSE "hle1 sensible heat", s1.h, c.out[1]))
          \cup (IF claims /\ settled /\ ~Claim(x, c)
                THEN V(FNear(s1.h, c.out[1], Rel4, F("2e-3")), {"C15"}, "sensible heat", s1.h, c.out[1])
                     \cup V(FNear(s1.e, c.out[3], Rel4, F("1e-9")), {"C15"}, "mass flux", s1.e, c.out[3])
                ELSE {})
          \cup V(FNear(lv \otimes c.out[3], c.out[2], R, F("1e-9")), {"C15"}, "latent heat of the mass flux",
                 lv \otimes c.out[3], c.out[2])
          \cup (IF ~claims THEN {}
                ELSE V((x.dT \otimes c.out[1]) \succeq F("-1e-9"), {"C15"}, "direction of sensible heat", x.dT, c.out[1])
                     \cup V((x.dq \otimes c.out[3]) \succeq F("-1e-18"), {"C15"}, "direction of vapour", x.dq, c.out[3]))

Tags(c) ==
  IF c.fn # "hle1" THEN {c.fn}
  ELSE LET a == c.a[1]
       IN IF Refuse(a) THEN {"refused-" \o c.note}
          ELSE IF Vague(a) THEN {"vague"}
          ELSE LET x == Exchange(ArgsOf(a))
                   s == Turbulent(x, [has |-> c.has, ustar |-> c.start[1], factor |-> c.start[2]])
               IN {IF Calm(x) THEN "calm" ELSE IF Neutral(x) THEN "neutral"
                   ELSE IF ~s.ok THEN "not-converging"
                   ELSE IF s.lo \succ Zero THEN "stable" ELSE "unstable"}

Verdict(c) == IF c.fn = "hle1" THEN Flux(c) ELSE IF c.fn = "rising" THEN Rising(c) ELSE Plain(c)

Init == t \in DOMAIN Traces /\ k = 1 /\ nbad = 0 /\ tags = {}
Call == /\ k <= Len(Tr.calls)
        /\ LET bad == Verdict(Tr.calls[k])
           IN /\ \A b \in bad : PrintT("@@" \o ToString(<<"V", Tr.id, k, 0, b>>))
              /\ nbad' = nbad + Cardinality(bad)
        /\ tags' = tags \cup Tags(Tr.calls[k])
        /\ k' = k + 1 /\ UNCHANGED t
End == /\ k = Len(Tr.calls) + 1
       /\ PrintT("@@" \o ToString(<<"END", Tr.id, nbad, tags>>))
       /\ k' = k + 1 /\ UNCHANGED <<t, nbad, tags>>
Next == Call \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
