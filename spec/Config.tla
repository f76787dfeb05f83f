------------------------------- MODULE Config -------------------------------
(* What a configuration means.  Each item is left out, given at its         *)
(* documented default or given at another value; the run depends on the     *)
(* effective values alone, however the file is laid out.  The lengths of    *)
(* the run steps and the number of them in a data step follow from four of  *)
(* the items.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Deviations    \* items that differ from the base configuration

\* items whose values matter to the model here: <<default, another>> (minutes, kg/m^2)
Numbers == [time_step |-> <<60, 120>>,
            norm_time_step |-> <<60, 30>>, medium_time_step |-> <<15, 5>>, small_time_step |-> <<1, 5>>,
            norm_threshold |-> <<60, 80>>, medium_threshold |-> <<10, 20>>, small_threshold |-> <<1, 2>>]
\* the others: their defaults are in the table of the harness, from the documentation
Others == {"time_zone", "z_u", "z_T", "z_g", "relative_heights", "max_h2o", "max_active",
           "output_mode", "format_output", "t_s_0", "t_s", "h2o_sat", "z_0",
           "cover"}    \* z_s and rho, which make sense together only
Items == DOMAIN Numbers \cup Others
\* items without a default, always given: elevation, start_date, end_date, input_csv, output_csv

Ways == {"omitted", "default", "other"}
Styles == {"plain", "capitals", "shuffled", "spaced", "commented", "absolute", "instance"}

VARIABLES base, choice, style, left
vars == <<base, choice, style, left>>

Init == /\ base \in {"omitted", "other"} /\ choice = [i \in Items |-> base]
        /\ style = "plain" /\ left = Deviations
Change == /\ left > 0
          /\ \E i \in Items, w \in Ways : choice[i] = base /\ w # base /\ choice' = [choice EXCEPT ![i] = w]
          /\ left' = left - 1 /\ UNCHANGED <<base, style>>
Layout == /\ style = "plain" /\ left < Deviations
          /\ \E s \in Styles \ {"plain"} : style' = s
          /\ left' = 0 /\ UNCHANGED <<base, choice>>
Next == Change \/ Layout
Spec == Init /\ [][Next]_vars

\* C26: the effective value of an item; the layout does not enter
Effective(c) == [i \in Items |-> IF c[i] = "other" THEN "other" ELSE "default"]
Value(i) == Numbers[i][IF Effective(choice)[i] = "other" THEN 2 ELSE 1]
Steps == <<Value("norm_time_step"), Value("medium_time_step"), Value("small_time_step")>>
PerDataStep == Value("time_step") \div Steps[1]
Intervals == <<PerDataStep, Steps[1] \div Steps[2], Steps[2] \div Steps[3]>>
Thresholds == <<Value("norm_threshold"), Value("medium_threshold"), Value("small_threshold")>>

\* leaving out an item is giving it its default
LeftOut == \A i \in Items : choice[i] = "omitted" =>
             Effective(choice) = Effective([choice EXCEPT ![i] = "default"])
\* every mixture of given items and defaults is a valid configuration
Nested == /\ Steps[1] % Steps[2] = 0 /\ Steps[2] % Steps[3] = 0 /\ Value("time_step") % Steps[1] = 0
          /\ Intervals[1] * Intervals[2] * Intervals[3] * Steps[3] = Value("time_step")
          /\ Thresholds[1] > Thresholds[2] /\ Thresholds[2] > Thresholds[3]
Emit == PrintT("@@" \o ToString(<<"CASE",
          {i \in Items : choice[i] = "omitted"}, {i \in Items : choice[i] = "other"}, style,
          Value("time_step"), Steps, Intervals, Thresholds>>))
=============================================================================
