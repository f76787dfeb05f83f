-------------------------------- MODULE Cache --------------------------------
(* Derived values that are remembered: saturation pressures of an object    *)
(* follow its temperatures through any history of reads and writes.         *)
(* Implementation-shaped: a write marks the remembered value invalid, a     *)
(* read computes it when it is not valid.                                   *)
EXTENDS Thermo, TLC, Sequences, FiniteSets

CONSTANTS Depth,
          Places      \* names of the temperatures of the object, e.g. {"t_a", "t_g"}

Temps == <<F("263.15"), F("273.16"), F("273.5"), F("281")>>
VARIABLES temp, memo, valid, hist
vars == <<temp, memo, valid, hist>>

Init == /\ temp \in [Places -> {1}]
        /\ memo = [p \in Places |-> Zero] /\ valid = [p \in Places |-> FALSE]
        /\ hist = <<>>
Write(p, i) ==
  /\ temp' = [temp EXCEPT ![p] = i] /\ valid' = [valid EXCEPT ![p] = FALSE]
  /\ hist' = Append(hist, <<"set", p, Temps[i], Zero>>)
  /\ UNCHANGED memo
Read(p) ==
  /\ memo' = IF valid[p] THEN memo ELSE [memo EXCEPT ![p] = SatVP(Temps[temp[p]])]
  /\ valid' = [valid EXCEPT ![p] = TRUE]
  /\ hist' = Append(hist, <<"read", p, Temps[temp[p]], memo'[p]>>)
  /\ UNCHANGED temp
\* an update of every temperature at once, by an increment
Shift(i) ==
  /\ temp' = [p \in Places |-> i] /\ valid' = [p \in Places |-> FALSE]
  /\ hist' = Append(hist, <<"shift", "", Temps[i], Zero>>)
  /\ UNCHANGED memo
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in Places : Read(p) \/ \E i \in DOMAIN Temps : Write(p, i)
           \/ \E i \in {1, 3} : Shift(i)
Spec == Init /\ [][Next]_vars

\* C22: what is remembered as valid is right, and so is what was read
NeverStale == \A p \in Places : valid[p] => FEq(memo[p], SatVP(Temps[temp[p]]))
ReadsRight == \A i \in DOMAIN hist : hist[i][1] = "read" => FEq(hist[i][4], SatVP(hist[i][3]))
Emit == (Len(hist) = Depth /\ hist[Depth][1] = "read") => PrintT("@@" \o ToString(<<"CASE", hist>>))
=============================================================================
