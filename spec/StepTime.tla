------------------------------ MODULE StepTime ------------------------------
(* The time of StepGrid on its own: any lengths of steps, any number of     *)
(* data steps.  Ind is inductive (Apalache, all integers), so the tiling of *)
(* data steps (C10) and the delivery of all precipitation (C11) hold for    *)
(* every configuration; StepGrid refines this module (TLC).                 *)
EXTENDS Integers

\* Len2: the small step; Smalls of them make a medium step, Mediums of those a
\* normal one and Normals of those a data step
CONSTANTS
  \* @type: Int;
  Len2,
  \* @type: Int;
  Smalls,
  \* @type: Int;
  Mediums,
  \* @type: Int;
  Normals

\* level 0: between data steps; left1 .. left3: steps still to do at each level
VARIABLES
  \* @type: Int;
  level,
  \* @type: Int;
  left1,
  \* @type: Int;
  left2,
  \* @type: Int;
  left3,
  \* @type: Int;
  clock,
  \* @type: Int;
  pos,
  \* @type: Int;
  given,
  \* @type: Int;
  done
\* @type: () => <<Int, Int, Int, Int, Int, Int, Int, Int>>;
vars == <<level, left1, left2, left3, clock, pos, given, done>>

Constants == Len2 \in Int /\ Len2 > 0 /\ Smalls \in Int /\ Smalls > 0 /\ Mediums \in Int /\ Mediums > 0
             /\ Normals \in Int /\ Normals > 0
\* any lengths at all
ConstInit == Len2 \in Int /\ Smalls \in Int /\ Mediums \in Int /\ Normals \in Int /\ Constants

Len1 == Smalls * Len2
Len0 == Mediums * Len1
D == Normals * Len0

Init == /\ level = 0 /\ left1 = 0 /\ left2 = 0 /\ left3 = 0
        /\ clock = 0 /\ pos = 0 /\ given = 0 /\ done = 0

StartData == /\ level = 0 /\ level' = 1 /\ left1' = Normals /\ left2' = 0 /\ left3' = 0
             /\ pos' = 0 /\ given' = 0 /\ UNCHANGED <<clock, done>>
Divide == \/ /\ level = 1 /\ left1 > 0 /\ level' = 2 /\ left2' = Mediums
             /\ UNCHANGED <<left1, left3, clock, pos, given, done>>
          \/ /\ level = 2 /\ left2 > 0 /\ level' = 3 /\ left3' = Smalls
             /\ UNCHANGED <<left1, left2, clock, pos, given, done>>
Step == \/ /\ level = 1 /\ left1 > 0 /\ left1' = left1 - 1
           /\ clock' = clock + Len0 /\ pos' = pos + Len0 /\ given' = given + Len0
           /\ UNCHANGED <<level, left2, left3, done>>
        \/ /\ level = 2 /\ left2 > 0 /\ left2' = left2 - 1
           /\ clock' = clock + Len1 /\ pos' = pos + Len1 /\ given' = given + Len1
           /\ UNCHANGED <<level, left1, left3, done>>
        \/ /\ level = 3 /\ left3 > 0 /\ left3' = left3 - 1
           /\ clock' = clock + Len2 /\ pos' = pos + Len2 /\ given' = given + Len2
           /\ UNCHANGED <<level, left1, left2, done>>
Return == \/ /\ level = 2 /\ left2 = 0 /\ level' = 1 /\ left1' = left1 - 1
             /\ UNCHANGED <<left2, left3, clock, pos, given, done>>
          \/ /\ level = 3 /\ left3 = 0 /\ level' = 2 /\ left2' = left2 - 1
             /\ UNCHANGED <<left1, left3, clock, pos, given, done>>
FinishData == /\ level = 1 /\ left1 = 0 /\ level' = 0 /\ done' = done + 1
              /\ UNCHANGED <<left1, left2, left3, clock, pos, given>>
Next == StartData \/ Divide \/ Step \/ Return \/ FinishData
Spec == Init /\ [][Next]_vars

\* time still to be covered in this data step
Rest == IF level = 1 THEN left1 * Len0
        ELSE IF level = 2 THEN (left1 - 1) * Len0 + left2 * Len1
        ELSE (left1 - 1) * Len0 + (left2 - 1) * Len1 + left3 * Len2
Ind == /\ level \in 0..3 /\ done >= 0
       /\ left1 >= 0 /\ left2 >= 0 /\ left3 >= 0
       /\ (level >= 2 => left1 > 0) /\ (level = 3 => left2 > 0)
       /\ left1 <= Normals /\ left2 <= Mediums /\ left3 <= Smalls
       /\ given = pos
       /\ level > 0 => pos + Rest = D /\ clock = done * D + pos
       /\ level = 0 => clock = done * D /\ (done > 0 => pos = D)
IndInit == /\ level \in Int /\ left1 \in Int /\ left2 \in Int /\ left3 \in Int /\ clock \in Int /\ pos \in Int
           /\ given \in Int /\ done \in Int /\ Ind
\* C10, C11
Covered == level = 0 /\ done > 0 => clock = done * D /\ given = D
InStep == level > 0 => pos >= 0 /\ pos <= D
=============================================================================
