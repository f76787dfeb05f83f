------------------------------- MODULE Precip -------------------------------
(* Every combination of precipitation mass, snow fraction, density and      *)
(* temperature of a menu, with the split the model makes of it.             *)
EXTENDS SnowPhysics, TLC

VARIABLES r
Masses    == {F("0"), F("0.5"), F("2"), F("0.001"), F("37")}
Fractions == {F("0"), F("0.25"), F("0.5"), F("0.999"), F("1")}
Rhos      == {F("-1"), F("0"), F("64"), F("200")}
Temps     == {F("250"), F("273.15"), F("273.16"), F("273.17"), F("280")}

Init == r \in [m_pp : Masses, percent_snow : Fractions, rho_snow : Rhos, t_pp : Temps]
Next == FALSE /\ UNCHANGED r
Spec == Init /\ [][Next]_r

Split == [refused |-> PrecipRefused(r), now |-> HasPrecip(r), m_snow |-> SnowMass(r),
          m_rain |-> RainMass(r), z_snow |-> NewSnowDepth(r), t_rain |-> RainTemp(r),
          t_snow |-> NewSnowTemp(r), sat |-> NewSnowSat(r)]
\* C12
Consistent12 ==
  ~Split.refused =>
    /\ FNear(Split.m_snow \oplus Split.m_rain, r.m_pp, F("1e-12"), Zero)
    /\ (Split.now /\ Split.m_rain \succ Zero) => Split.t_rain \succeq FREEZE
    /\ (Split.now /\ Split.m_snow \succ Zero) =>
         /\ Split.t_snow \preceq FREEZE
         /\ FNear(Split.z_snow \otimes r.rho_snow, Split.m_snow, F("1e-12"), Zero)
         /\ (Split.m_rain \succ Zero) => (FEq(Split.t_snow, FREEZE) /\ FEq(Split.sat, One))
         /\ FEq(Split.sat, One) <=> (Split.m_rain \succ Zero \/ r.t_pp \succeq FREEZE)
         /\ (FEq(Split.sat, Zero) => FEq(Split.t_snow, r.t_pp))
    /\ ~Split.now => FEq(Split.z_snow, Zero)
Emit == PrintT("@@" \o ToString(<<"CASE", r, Split>>))
=============================================================================
