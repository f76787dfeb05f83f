------------------------------ MODULE Averages ------------------------------
(* What accumulates between two output records: each run step has a value   *)
(* (a rate) and an amount for every cell; the first step of an interval     *)
(* starts the mean and the total afresh, the others are added.  A step may  *)
(* leave the value of the step before in place.                             *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Depth,    \* run steps
          Cells

VARIABLES now,      \* value of the step, for each cell
          num, time,\* time-weighted sum of the values, and the time
          total,    \* sum of the amounts
          hist      \* <<fresh, kept, values, length, num, time, total>> of each step
vars == <<now, num, time, total, hist>>

\* values of one step: alike, different, of both signs, zero in a cell
Fields == {[c \in 1..Cells |-> 3], [c \in 1..Cells |-> c - 2], [c \in 1..Cells |-> 7 - 5 * c]}
Lengths == {1, 15}

Init == /\ now = [c \in 1..Cells |-> 0] /\ num = now /\ total = now /\ time = 0 /\ hist = <<>>
Step(fresh, kept, v, n) ==
  LET w == IF kept THEN now ELSE v
      wn == [c \in 1..Cells |-> n * w[c]]
  IN /\ now' = w
     /\ num' = IF fresh THEN wn ELSE [c \in 1..Cells |-> num[c] + wn[c]]
     /\ time' = IF fresh THEN n ELSE time + n
     /\ total' = IF fresh THEN w ELSE [c \in 1..Cells |-> total[c] + w[c]]
     /\ hist' = Append(hist, <<fresh, kept, w, n, num', time', total'>>)
Next == /\ Len(hist) < Depth
        /\ \E fresh, kept \in BOOLEAN, v \in Fields, n \in Lengths :
             /\ (hist = <<>> => fresh /\ ~kept)
             /\ (kept => v = CHOOSE x \in Fields : TRUE)
             /\ Step(fresh, kept, v, n)
Spec == Init /\ [][Next]_vars

\* C13, C25: the mean of an interval lies among its values, and each cell is on its own
Since == LET f == CHOOSE i \in 1..Len(hist) : hist[i][1] /\ \A j \in (i + 1)..Len(hist) : ~hist[j][1]
         IN f..Len(hist)
Among == hist # <<>> => \A c \in 1..Cells :
           /\ \E i \in Since : time * hist[i][3][c] <= num[c]
           /\ \E i \in Since : time * hist[i][3][c] >= num[c]
OwnCell == hist # <<>> => \A c, d \in 1..Cells :
             (\A i \in Since : hist[i][3][c] = hist[i][3][d]) => num[c] = num[d] /\ total[c] = total[d]
Emit == Len(hist) = Depth => PrintT("@@" \o ToString(<<"CASE", hist>>))
=============================================================================
