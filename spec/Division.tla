------------------------------ MODULE Division ------------------------------
(* The lengths a user gives to the normal, medium and small run steps, and  *)
(* the interval of the data, in minutes: which of them a run accepts, and   *)
(* the clock of a run with steps of one level.  The model divides a step    *)
(* into a whole number of the next shorter ones, so that lengths which do   *)
(* not divide would lose time in every step; they are refused.              *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Lengths,     \* tried for each kind of run step, also senseless ones
          Intervals,   \* of the data
          DataSteps

VARIABLES norm, medium, small, data,
          level,       \* the steps the snowcover asks for: 0 normal, 1 medium, 2 small
          phase, clock, ends, left
vars == <<norm, medium, small, data, level, phase, clock, ends, left>>

Tried == Lengths \cup {-1}
Init == /\ norm \in Lengths /\ medium \in Tried /\ small \in Tried /\ data \in Intervals
        /\ level \in 0..2
        /\ phase = "check" /\ clock = 0 /\ ends = <<>> /\ left = DataSteps

Divides(b, a) == b > 0 /\ a > 0 /\ a % b = 0
Fits == Divides(medium, norm) /\ Divides(small, medium) /\ Divides(norm, data)

Length == <<norm, medium, small>>[level + 1]
\* how often a step of this level is taken in a data step
Count == LET n == data \div norm
             m == norm \div medium
             s == medium \div small
         IN n * (IF level > 0 THEN m ELSE 1) * (IF level > 1 THEN s ELSE 1)

Fixed == UNCHANGED <<norm, medium, small, data, level>>
Check == /\ phase = "check"
         /\ phase' = IF Fits THEN "run" ELSE "refused"
         /\ UNCHANGED <<clock, ends, left>> /\ Fixed
\* a data step, all of whose run steps have one length
Run == /\ phase = "run" /\ left > 0
       /\ ends' = ends \o [i \in 1..Count |-> clock + i * Length]
       /\ clock' = clock + Count * Length
       /\ left' = left - 1 /\ UNCHANGED phase /\ Fixed
Stop == /\ phase = "run" /\ left = 0 /\ phase' = "done"
        /\ UNCHANGED <<clock, ends, left>> /\ Fixed
Next == Check \/ Run \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C10
Covered == phase \in {"run", "done"} => clock = (DataSteps - left) * data
OnTime == \A i \in DOMAIN ends : ends[i] = i * Length
\* what is refused could not have been covered at every level
Loses == phase = "refused" =>
           \/ norm <= 0 \/ medium <= 0 \/ small <= 0
           \/ (data \div norm) * norm # data
           \/ (norm \div medium) * medium # norm
           \/ (medium \div small) * small # medium
Ends == <>(phase \in {"done", "refused"})
Emit == phase \in {"done", "refused"} =>
          PrintT("@@" \o ToString(<<"CASE", norm, medium, small, data, level, phase = "done", ends>>))
==============================================================================
