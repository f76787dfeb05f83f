------------------------------ MODULE StepGrid ------------------------------
(* The division of data steps into run steps, the model clock, the position *)
(* of the forcing and the share of precipitation, in integers.  Structured  *)
(* like the implementation: a stack of levels, each with the number of its  *)
(* steps still to do.  The snowcover is reduced to what decides the         *)
(* division: the smallest layer mass is at or above the normal threshold    *)
(* (2; also bare ground), between the thresholds (1), or below both (0).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Len0, Len1, Len2,   \* lengths of normal, medium and small steps
          Normals,            \* normal steps in a data step
          DataSteps

ASSUME Len0 % Len1 = 0 /\ Len1 % Len2 = 0
D == Normals * Len0
Count == <<Normals, Len0 \div Len1, Len1 \div Len2>>
Length == <<Len0, Len1, Len2>>

VARIABLES mass,    \* class of the snowcover
          first,   \* that at the start
          stack,   \* steps still to do at levels 1 .. Len(stack)
          clock,   \* time since the start
          pos,     \* where in the data step the forcing stands
          given,   \* precipitation delivered in this data step, in units of total/D
          done,    \* data steps completed
          run,     \* the run steps of this behaviour: <<level, begin, mass after>>
          outs     \* output records of normal mode: <<end, first run step, last run step>>
vars == <<mass, first, stack, clock, pos, given, done, run, outs>>

Init == /\ mass \in 0..2 /\ first = mass /\ stack = <<>> /\ clock = 0 /\ pos = 0 /\ given = 0 /\ done = 0
        /\ run = <<>> /\ outs = <<>>

Ready == Len(stack) > 0 /\ stack[Len(stack)] > 0
lvl == Len(stack)
MustDivide == lvl < 3 /\ mass < 3 - lvl   \* below the threshold of this level

StartData ==
  /\ stack = <<>> /\ done < DataSteps
  /\ stack' = <<Count[1]>> /\ pos' = 0 /\ given' = 0
  /\ UNCHANGED <<first, mass, clock, done, run, outs>>
Divide ==
  /\ Ready /\ MustDivide
  /\ stack' = Append(stack, Count[lvl + 1])
  /\ UNCHANGED <<first, mass, clock, pos, given, done, run, outs>>
Step ==
  /\ Ready /\ ~MustDivide
  /\ \E m \in 0..2 :
       /\ mass' = m
       /\ run' = Append(run, <<lvl, pos, m>>)
  /\ clock' = clock + Length[lvl] /\ pos' = pos + Length[lvl] /\ given' = given + Length[lvl]
  /\ stack' = [stack EXCEPT ![lvl] = @ - 1]
  /\ UNCHANGED <<first, done, outs>>
\* a divided step is complete: one step of the coarser level is done
Return ==
  /\ lvl > 1 /\ stack[lvl] = 0
  /\ stack' = [SubSeq(stack, 1, lvl - 1) EXCEPT ![lvl - 1] = @ - 1]
  /\ UNCHANGED <<first, mass, clock, pos, given, done, run, outs>>
FinishData ==
  /\ stack = <<0>>
  /\ stack' = <<>> /\ done' = done + 1
  /\ outs' = Append(outs, <<clock, IF outs = <<>> THEN 1 ELSE outs[Len(outs)][3] + 1, Len(run)>>)
  /\ UNCHANGED <<first, mass, clock, pos, given, run>>
Next == StartData \/ Divide \/ Step \/ Return \/ FinishData
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C10
Tiles == /\ clock = done * D + (IF stack = <<>> THEN 0 ELSE pos)
         /\ pos <= D
         /\ \A i \in 2..Len(run) :
              run[i][2] = (run[i-1][2] + Length[run[i-1][1]]) % D
Aligned == \A i \in DOMAIN run : run[i][2] % Length[run[i][1]] = 0
\* C11
AllDelivered == stack = <<0>> => given = D /\ pos = D
\* C13
Intervals == \A i \in DOMAIN outs :
               /\ outs[i][1] = i * D
               /\ outs[i][2] <= outs[i][3]
               /\ (i > 1 => outs[i][2] = outs[i-1][3] + 1)
OneRecord == Len(outs) = done
\* every data step ends
Terminates == <>(done = DataSteps)
\* these are behaviours of StepTime, whose invariant Apalache proves for all lengths
At(i) == IF i <= Len(stack) THEN stack[i] ELSE 0
Time == INSTANCE StepTime WITH Smalls <- Len1 \div Len2, Mediums <- Len0 \div Len1, level <- lvl,
                               left1 <- At(1), left2 <- At(2), left3 <- At(3)
Refines == Time!Spec
Emit == done = DataSteps => PrintT("@@" \o ToString(<<"CASE", first, run, outs>>))
=============================================================================
