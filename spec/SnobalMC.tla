------------------------------ MODULE SnobalMC ------------------------------
(* Bounded instance of Snobal: a menu of weather records chosen so that     *)
(* their sequences reach every rule of the model, coarse steps, a few       *)
(* initial snowcovers.                                                      *)
EXTENDS Snobal

CONSTANTS Packs_, Weather_,   \* names used from the menus
          Variant             \* which configuration

Rec(sn, lw, ta, ea, u, tg, m, ps, rho, tp) ==
  [S_n |-> F(sn), I_lw |-> F(lw), t_a |-> F(ta), e_a |-> F(ea), u |-> F(u), t_g |-> F(tg),
   m_pp |-> F(m), percent_snow |-> F(ps), rho_snow |-> F(rho), t_pp |-> F(tp)]

Menu ==
  [ night |-> Rec("0", "220", "262", "150", "3", "273.16", "0", "0", "0", "0"),
    frost |-> Rec("0", "260", "270", "400", "2", "273.16", "0", "0", "0", "0"),
    sun   |-> Rec("650", "300", "280", "700", "4", "273.16", "0", "0", "0", "0"),
    foehn |-> Rec("300", "330", "287", "300", "12", "275", "0", "0", "0", "0"),
    rain  |-> Rec("20", "340", "277", "800", "5", "274", "9", "0", "0", "276"),
    snow  |-> Rec("0", "290", "268", "380", "4", "273.16", "12", "1", "120", "267"),
    wetsnow |-> Rec("0", "320", "274", "620", "3", "273.16", "15", "0.6", "200", "274"),
    dump  |-> Rec("0", "300", "265", "300", "2", "272", "45", "1", "90", "264"),
    calm  |-> Rec("0", "300", "272", "500", "0", "273.16", "0", "0", "0", "0"),
    flurry |-> Rec("0", "280", "271", "500", "1", "273.16", "0.6", "1", "100", "273.16") ]

P(z, rho, t, t0, tl, sat) ==
  [z_s |-> F(z), rho |-> F(rho), t_s |-> F(t), t_s_0 |-> F(t0), t_s_l |-> F(tl), h2o_sat |-> F(sat)]
PackMenu ==
  [ bare  |-> P("0", "0", "273.16", "273.16", "273.16", "0"),
    thin  |-> P("0.012", "150", "273.16", "273.16", "273.16", "1"),
    edge  |-> P("0.2625", "100", "272.9", "272.9", "272.9", "0.5"),
    two   |-> P("0.4", "250", "273", "272.5", "273.16", "0.8"),
    ripe  |-> P("0.3", "350", "273.16", "273.16", "273.16", "1"),
    cold  |-> P("0.5", "300", "266", "260", "268", "0"),
    dense |-> P("0.1", "590", "273.16", "273.16", "273.16", "1") ]

MCDts == IF Variant = 1 THEN <<3600, 1800, 900>> ELSE <<1800, 900, 300>>
MCPacks == {PackMenu[x] : x \in Packs_}
MCWeather == [x \in Weather_ |-> Menu[x]]
MCConfig ==
  LET c == [max_h2o |-> F("0.01"), max_z0 |-> F("0.25"), thr |-> <<F("60"), F("10"), F("1")>>,
            P_a |-> AirPressure(F("2061")), z_u |-> F("5"), z_t |-> F("4"), z_g |-> F("0.5"),
            relative |-> FALSE, z_0 |-> F("0.005"), bias |-> 0]
  IN CASE Variant = 1 -> c
       [] Variant = 2 -> [c EXCEPT !.max_h2o = F("0.04"), !.max_z0 = F("0.1"), !.relative = TRUE,
                                   !.thr = <<F("30"), F("10"), F("2")>>]
       [] Variant = 3 -> [c EXCEPT !.max_h2o = Zero, !.max_z0 = F("0.4"), !.z_t = F("6"),
                                   !.thr = <<F("80"), F("40"), F("5")>>]

----------------------------------------------------------------------------
(* The behaviours of the instance, remembered by the names of their choices *)
(* so that the implementation can be put through them                       *)
VARIABLES hist, reached
InitH == /\ Init
         /\ \E x \in Packs_ : /\ w = [InitialSnow(PackMenu[x]) EXCEPT !.tags = {}]
                               /\ hist = <<x, r1>>
         /\ reached = {}
NextH == /\ Next
         /\ hist' = IF pc = "choose" THEN Append(hist, r2') ELSE hist
         /\ reached' = reached \cup w'.tags
SpecH == InitH /\ [][NextH]_<<vars, hist, reached>>
Emit == (pc = "choose" /\ g.n = MaxData) =>
          PrintT("@@" \o ToString(<<"CASE", hist, reached,
                 [m_s |-> w.m_s, z_s |-> w.z_s, h2o |-> w.h2o, t_s |-> w.t_s, left |-> g.left,
                  vapour |-> g.vapour], w.layer_count>>))
EmitMenus == \A x \in Packs_ : \A y \in Weather_ :
   PrintT("@@" \o ToString(<<"PACK", x, PackMenu[x]>>)) /\ PrintT("@@" \o ToString(<<"WEATHER", y, Menu[y]>>))
ASSUME EmitMenus
=============================================================================
