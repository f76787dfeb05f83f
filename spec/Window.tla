------------------------------- MODULE Window -------------------------------
(* A file run: the rows of the input table arrive in any order, are sorted, *)
(* clipped to the configured window and fed in pairs to the point model,    *)
(* whose clock starts at the start date.  Times are counted in half data    *)
(* intervals, so that the end of the window may lie between rows.  Rows     *)
(* outside the window may be at another interval (a gap, a change of the    *)
(* logger): that does not concern the run.  A table that lacks a record of  *)
(* the window, or has one at another time, cannot be simulated: the clock   *)
(* of the model moves on by the same time with every record.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxRows

VARIABLES n,        \* rows in the file
          at,       \* their times: 0, 2, 4, ... in the window
          order,    \* the rows in the order of the file
          start, stop,
          table,    \* the rows kept, in the order they are used
          phase,
          fed,      \* <<first row, second row, clock after>> of each data step
          clock
vars == <<n, at, order, start, stop, table, phase, fed, clock>>

Delta == 2
Rows == 0..(n - 1)
At(r) == at[r + 1]
Used(s) == {s[i] : i \in DOMAIN s}

Init == /\ n \in 2..MaxRows
        /\ start \in {Delta * r : r \in 0..(n - 2)}
        /\ stop \in (start + 1)..(Delta * (n - 1) + 3)
        /\ \E g \in 0..(n - 2), early \in {-1, 0, 1, 3}, late \in {-1, 0, 1, 4} :
             /\ Delta * g <= start /\ (early = 0 => g = 0) /\ (g = 0 => early = 0)
             /\ at = [i \in 1..n |->
                   LET u == Delta * (i - 1) IN
                   IF i - 1 < g THEN u - early
                   ELSE IF u > stop + Delta /\ u + late > stop + Delta THEN u + late ELSE u]
        /\ order = <<>> /\ table = <<>> /\ phase = "read" /\ fed = <<>> /\ clock = start

\* tables with something wrong with the times, in the window or elsewhere
From == SelectSeq([i \in 1..n |-> i - 1], LAMBDA r : start <= At(r))
InitFlawed ==
  /\ n \in 3..MaxRows
  /\ \E kind \in {"hole", "odd", "double", "none"}, h \in 2..n :
       /\ kind = "none" => h = n
       /\ at = [i \in 1..n |->
             LET u == Delta * (i - 1) IN
             CASE kind = "hole" /\ i >= h -> u + Delta
               [] kind = "odd" /\ i = h -> u - 1
               [] kind = "double" /\ i >= h -> u - Delta
               [] OTHER -> u]
  /\ start \in (0 - Delta)..(Delta * (n - 1))
  /\ stop \in (start + 1)..(Delta * (n + 1))
  \* the interval of the data is that of its first two records: they may not mislead
  /\ LET w == From IN Len(w) >= 2 =>
       \/ At(w[2]) = At(w[1]) + Delta
       \/ Len(w) >= 3 /\ At(w[3]) <= stop + Delta /\ At(w[3]) - At(w[2]) # At(w[2]) - At(w[1])
  \* what ends the last interval is there, or nothing is
  /\ \A r \in Rows : stop < At(r) /\ At(r) <= stop + Delta =>
       /\ (At(r) - start) % Delta = 0
       /\ \A q \in Rows : q # r => At(q) # At(r)
  /\ order = <<>> /\ table = <<>> /\ phase = "read" /\ fed = <<>> /\ clock = start

\* the same for long tables
InitLong == /\ n \in {MaxRows \div 4, MaxRows \div 2, MaxRows}
            /\ start \in {0, 2, 14}
            /\ stop \in {Delta * (n - 1) - d : d \in {0, 2, 5, 31}}
            /\ at = [i \in 1..n |-> Delta * (i - 1)]
            /\ order = <<>> /\ table = <<>> /\ phase = "read" /\ fed = <<>> /\ clock = start

ReadRow == /\ phase = "read" /\ Len(order) < n
           /\ \E r \in Rows \ Used(order) : order' = Append(order, r)
           /\ UNCHANGED <<n, at, start, stop, table, phase, fed, clock>>

RECURSIVE Insert(_, _)
Insert(s, r) == IF s = <<>> THEN <<r>>
                ELSE IF At(Head(s)) < At(r) THEN <<Head(s)>> \o Insert(Tail(s), r)
                ELSE <<r>> \o s
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))

Sort == /\ phase = "read" /\ Len(order) = n
        /\ table' = Sorted(order) /\ phase' = "clip"
        /\ UNCHANGED <<n, at, order, start, stop, fed, clock>>
\* the interval beginning at the last row in the window needs one row more
Clip == /\ phase = "clip"
        /\ table' = SelectSeq(table, LAMBDA r : start <= At(r) /\ At(r) <= stop + Delta)
        /\ phase' = "check"
        /\ UNCHANGED <<n, at, order, start, stop, fed, clock>>
Whole == /\ Len(table) >= 2
         /\ At(table[1]) = start
         /\ At(table[Len(table)]) > stop - Delta
         /\ \A i \in 1..(Len(table) - 1) : At(table[i + 1]) = At(table[i]) + Delta
Check == /\ phase = "check"
         /\ phase' = IF Whole THEN "run" ELSE "refused"
         /\ UNCHANGED <<n, at, order, start, stop, table, fed, clock>>
Feed == /\ phase = "run" /\ Len(fed) + 1 < Len(table)
        /\ fed' = Append(fed, <<table[Len(fed) + 1], table[Len(fed) + 2], clock + Delta>>)
        /\ clock' = clock + Delta
        /\ UNCHANGED <<n, at, order, start, stop, table, phase>>
Finish == /\ phase = "run" /\ Len(fed) + 1 >= Len(table)
          /\ phase' = "done"
          /\ UNCHANGED <<n, at, order, start, stop, table, fed, clock>>
Next == ReadRow \/ Sort \/ Clip \/ Check \/ Feed \/ Finish
Spec == (Init \/ InitFlawed) /\ [][Next]_vars /\ WF_vars(Next)
SpecMore == Init /\ [][Next]_vars
SpecLong == InitLong /\ [][Next]_vars

\* C18
InWindow == phase \in {"run", "done"} =>
              \A i \in DOMAIN table : start <= At(table[i]) /\ At(table[i]) <= stop + Delta
InOrder == /\ \A i \in DOMAIN fed : fed[i][2] = fed[i][1] + 1
           /\ \A i \in DOMAIN fed : i > 1 => fed[i][1] = fed[i - 1][2]
\* the records carry the time of the row that ends their interval
ClockRight == \A i \in DOMAIN fed : fed[i][3] = At(fed[i][2])
\* every interval that begins in the window, both of whose rows are there
Complete == phase = "done" =>
              {fed[i][1] : i \in DOMAIN fed} =
                {r \in Rows : /\ start <= At(r) /\ At(r) <= stop
                             /\ r + 1 \in Rows /\ At(r + 1) = At(r) + Delta}
\* a record at every time of the window and none at another
Times == {u \in start..stop : (u - start) % Delta = 0}
Flawed == \/ \E u \in Times : Cardinality({r \in Rows : At(r) = u}) # 1
          \/ \E r \in Rows : start <= At(r) /\ At(r) <= stop /\ At(r) \notin Times
          \/ Cardinality({r \in Rows : start <= At(r) /\ At(r) <= stop + Delta}) < 2
Refused == /\ phase = "refused" => Flawed
           /\ phase = "run" /\ fed = <<>> => ~Flawed
\* the order of the rows does not matter
OrderFree == phase = "done" => fed = [i \in DOMAIN fed |->
               LET r == Cardinality({q \in Rows : At(q) < start}) + i - 1
               IN <<r, r + 1, start + Delta * i>>]
Terminates == <>(phase \in {"done", "refused"})
Emit == phase \in {"done", "refused"} => PrintT("@@" \o ToString(<<"CASE", order, start, stop, fed, at>>))
=============================================================================
