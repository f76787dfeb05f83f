----------------------------- MODULE FileTrace -----------------------------
(* File runs compared with what Window.tla and the table of output columns  *)
(* below say: which records, at which times, which values.  `own` are the   *)
(* records of the run's own point model, `want` those of the point model    *)
(* fed with the rows of the window in Kelvin, from the configured           *)
(* snowcover; `blame` are the properties a difference between the two       *)
(* belongs to, `also` those any difference does.                            *)
EXTENDS SnowPhysics, TLC

CONSTANT Files
RECURSIVE Load(_)
Load(fs) == IF fs = <<>> THEN <<>> ELSE LoadValue(Head(fs)) \o Load(Tail(fs))
Traces == Load(Files)

VARIABLES t, k
vars == <<t, k>>
Tr == Traces[t]

\* column, quantity of the record, shift, decimals ("e" in exponent form)
Col(name, src, celsius, decs, expo) ==
  [name |-> name, src |-> src, celsius |-> celsius, decs |-> decs, expo |-> expo]
Plain(x, decs) == Col(x, x, FALSE, decs, FALSE)
Columns ==
  << Plain("R_n", 3), Plain("H", 3), Plain("L_v_E", 3), Plain("G", 3), Plain("M", 3),
     Plain("delta_Q", 3), Plain("G_0", 3), Plain("delta_Q_0", 3),
     Col("cc_s_0", "cc_s_0", FALSE, 9, TRUE), Col("cc_s_l", "cc_s_l", FALSE, 9, TRUE),
     Col("cc_s", "cc_s", FALSE, 9, TRUE),
     Plain("E_s", 8), Plain("melt", 8), Plain("swi", 8),
     Plain("z_s_0", 6), Plain("z_s_l", 6), Plain("z_s", 6),
     Plain("rho", 3), Plain("m_s_0", 3), Plain("m_s_l", 3), Plain("m_s", 3), Plain("h2o", 3),
     Col("t_s_0", "t_s_0", TRUE, 5, FALSE), Col("t_s_l", "t_s_l", TRUE, 5, FALSE),
     Col("t_s", "t_s", TRUE, 5, FALSE) >>
Names == [i \in DOMAIN Columns |-> Columns[i].name]
Pow10 == <<F("1e-1"), F("1e-2"), F("1e-3"), F("1e-4"), F("1e-5"), F("1e-6"), F("1e-7"), F("1e-8"), F("1e-9")>>
HalfUnit == F("0.5000001")

V(ok, props, clause, want, got) ==
  IF ok THEN {} ELSE {<<p, clause, FShow(want), FShow(got)>> : p \in props \cup {Tr.also[i] : i \in DOMAIN Tr.also}}
VB(ok, props, clause) == V(ok, props, clause, Zero, Zero)

\* a cell of the table: its value, the digits after the point, the exponent
Cell(c, rec, cell) ==
  LET x == IF c.celsius THEN rec[c.src] \ominus FREEZE ELSE rec[c.src]
      unit == Pow10[c.decs]
      size == IF c.expo THEN cell.scale ELSE One
  IN IF Tr.format
     THEN V(FNear(x, cell.val, Zero, (HalfUnit \otimes unit) \otimes size), {"C19"}, "column " \o c.name, x, cell.val)
          \cup VB(cell.decs = c.decs /\ cell.expo = c.expo, {"C19"}, "format of column " \o c.name)
     ELSE V(FNear(x, cell.val, F("1e-13"), IF c.celsius THEN F("1e-12") ELSE Zero), {"C19"},
            "column " \o c.name, x, cell.val)

Same == {"R_n", "H", "L_v_E", "G", "G_0", "M", "delta_Q", "delta_Q_0", "E_s", "melt", "swi",
         "z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho", "t_s", "t_s_0", "t_s_l",
         "cc_s_0", "cc_s_l", "h2o", "h2o_sat"}
Blame == {Tr.blame[i] : i \in DOMAIN Tr.blame}

Table ==
  VB(Tr.cols = Names, {"C19"}, "columns of the output table")
  \cup VB(Len(Tr.rows) = Len(Tr.own), {"C19"}, "one row per record")
  \cup VB(Len(Tr.own) = Len(Tr.want), Blame, "number of records of the window")
  \cup (IF Tr.mode = "normal"
        THEN VB(Len(Tr.rows) = Len(Tr.times), {"C18"}, "number of data steps in the window") ELSE {})
  \cup VB(Tr.zone, {"C18"}, "time zone of the output table")
  \cup VB(Tr.names, {"C18"}, "the input file was altered")
  \cup VB(Tr.again, {"C14"}, "a second run of the same configuration")

Row(i) ==
  (IF Tr.cols = Names /\ i <= Len(Tr.rows)
   THEN UNION {Cell(Columns[j], Tr.own[i].r, Tr.rows[i].cells[j]) : j \in DOMAIN Columns}
        \cup VB(Tr.rows[i].at = Tr.own[i].at, {"C19"}, "time of a row")
   ELSE {})
  \cup (IF i <= Len(Tr.want) /\ Len(Tr.own) = Len(Tr.want)
        THEN VB(Tr.own[i].at = Tr.want[i].at, Blame, "time of a record")
             \cup UNION {V(FNear(Tr.want[i].r[x], Tr.own[i].r[x], F("1e-7"), F("1e-7")), Blame,
                           "run of the window: " \o x, Tr.want[i].r[x], Tr.own[i].r[x]) : x \in Same}
        ELSE {})
  \cup (IF Tr.mode = "normal" /\ i <= Len(Tr.times) /\ i <= Len(Tr.rows)
        THEN VB(Tr.rows[i].at = Tr.times[i], {"C18"}, "time of the record of a data step") ELSE {})

Init == t \in DOMAIN Traces /\ k = 0
Report(bad) == \A b \in bad : PrintT("@@" \o ToString(<<"V", Tr.id, k, 0, b>>))
Head_ == k = 0 /\ Report(Table) /\ k' = 1 /\ UNCHANGED t
Body == k >= 1 /\ k <= Len(Tr.own) /\ Report(Row(k)) /\ k' = k + 1 /\ UNCHANGED t
End == /\ k = Len(Tr.own) + 1
       /\ PrintT("@@" \o ToString(<<"END", Tr.id, 0, Tr.tags>>))
       /\ k' = k + 1 /\ UNCHANGED t
Next == Head_ \/ Body \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
