----------------------------- MODULE OutputTrace -----------------------------
(* Pairs of executions of the same scenario: one reporting every run step,  *)
(* one reporting every data step, repetitions, interleavings.  The records  *)
(* of a data step must be the time averages and totals of its run steps and *)
(* the state at its end; nothing else may differ.                           *)
EXTENDS SnowPhysics, TLC

CONSTANT Files
RECURSIVE Load(_)
Load(fs) == IF fs = <<>> THEN <<>> ELSE LoadValue(Head(fs)) \o Load(Tail(fs))
Traces == Load(Files)

VARIABLES t, d, nbad
vars == <<t, d, nbad>>
Tr == Traces[t]

V(ok, props, clause, want, got) ==
  IF ok THEN {} ELSE {<<p, clause, FShow(want), FShow(got)>> : p \in props}
VB(ok, props, clause) == V(ok, props, clause, Zero, Zero)

State == {"z_s", "z_s_0", "z_s_l", "m_s", "m_s_0", "m_s_l", "rho", "t_s", "t_s_0", "t_s_l",
          "cc_s_0", "cc_s_l", "h2o", "h2o_max", "h2o_sat", "h2o_vol"}
Averaged == {"R_n", "H", "L_v_E", "G", "G_0", "M", "delta_Q", "delta_Q_0"}
Totals == {"E_s", "melt", "swi"}

RECURSIVE SumOf(_, _, _)
SumOf(steps, x, n) == IF n = 0 THEN Zero ELSE SumOf(steps, x, n - 1) \oplus steps[n].r[x]
RECURSIVE Weighted(_, _, _)
Weighted(steps, x, n) ==
  IF n = 0 THEN Zero ELSE Weighted(steps, x, n - 1) \oplus (steps[n].r[x] \otimes FI(steps[n].dt))
RECURSIVE Secs(_, _)
Secs(steps, n) == IF n = 0 THEN 0 ELSE Secs(steps, n - 1) + steps[n].dt
RECURSIVE Largest(_, _, _)
Largest(steps, x, n) == IF n = 0 THEN Zero ELSE FMax(Largest(steps, x, n - 1), FAbs(steps[n].r[x]))
\* liquid water of snowcovers started in the interval (known finding KF1);
\* a cover at the minimum mass that is compacted vanishes and may be started
\* again within one run step
RECURSIVE Twice(_, _, _)
Twice(p, steps, n) ==
  IF n = 0 THEN Zero
  ELSE LET before == IF n = 1 THEN p ELSE steps[n - 1].r
           now == steps[n].r
       IN Twice(p, steps, n - 1) \oplus
            (IF /\ now.layer_count > 0
                /\ \/ before.layer_count = 0
                   \/ before.m_s \preceq Tr.thr /\ before.rho \prec F("550")
             THEN now.h2o ELSE Zero)

Compare(D) ==
  LET st == D.all
      n == Len(st)
      last == st[n].r
      q == D.normal[1].r
      p == D.before
      total == FI(Secs(st, n))
      big == FMax(FMax(FAbs(q.R_n), FAbs(q.H)), FMax(FMax(FAbs(q.L_v_E), FAbs(q.G)), FMax(FAbs(q.G_0), FAbs(q.M))))
      tol == F("1e-9") \oplus (F("1e-9") \otimes big)
      m_in == (p.m_s \oplus D.m_pp) \oplus q.E_s
      gone == q.m_s \oplus q.swi
      tolm == F("1e-9") \oplus (F("1e-8") \otimes FMax(p.m_s, D.m_pp))
      dev == Twice(p, st, n)
  IN VB(D.normal[1].at = Tr.D, {"C13"}, "time of the record of a data step")
     \cup UNION {V(FNear(last[x], q[x], F("1e-12"), Zero), {"C14"}, "trajectory differs: " \o x, last[x], q[x])
                   : x \in State}
     \cup VB(last.layer_count = q.layer_count, {"C14"}, "trajectory differs: layer_count")
     \cup UNION {LET w == Weighted(st, x, n) \oslash total IN
                 V(FNear(w, q[x], F("1e-9"), F("1e-9") \otimes (One \oplus Largest(st, x, n))), {"C13"},
                   "average of " \o x, w, q[x]) : x \in Averaged}
     \cup UNION {V(FNear(SumOf(st, x, n), q[x], F("1e-9"), F("1e-12")), {"C13"},
                   "total of " \o x, SumOf(st, x, n), q[x]) : x \in Totals}
     \cup V(FNear(SurfaceSum(q), q.delta_Q_0, Zero, tol), {"C02"}, "surface layer sum of averages", SurfaceSum(q), q.delta_Q_0)
     \cup V(FNear(CoverSum(q), q.delta_Q, Zero, tol), {"C02"}, "snowcover sum of averages", CoverSum(q), q.delta_Q)
     \cup V(\/ FNear(m_in, gone, Zero, tolm) \/ FNear(m_in \oplus dev, gone, Zero, tolm),
            {"C01"}, "water balance of a data step", m_in, gone)

Init == t \in DOMAIN Traces /\ d = 1 /\ nbad = 0
Report(bad) == \A b \in bad : PrintT("@@" \o ToString(<<"V", Tr.id, d, 0, b>>))
DataStep ==
  /\ d <= Len(Tr.data)
  /\ LET D == Tr.data[d]
         bad == IF Len(D.normal) # 1 THEN VB(FALSE, {"C13"}, "one record per data step")
                ELSE IF D.all = <<>> THEN VB(FALSE, {"C13"}, "no record of the run steps")
                ELSE Compare(D)
     IN Report(bad) /\ nbad' = nbad + Cardinality(bad)
  /\ d' = d + 1 /\ UNCHANGED t
End ==
  /\ d = Len(Tr.data) + 1
  /\ LET bad == VB(Tr.ends, {"C14"}, "one output mode stops and the other does not")
                \cup VB(Tr.repeat, {"C14"}, "a repeated run differs")
                \cup VB(Tr.reuse, {"C14"}, "a run with reused parameters differs")
                \cup VB(Tr.inter, {"C14"}, "an interleaved run differs")
                \cup VB(Tr.params, {"C14"}, "parameters, timestep table, heights or initial conditions were altered")
                \cup VB(Tr.records, {"C14"}, "input records were altered")
     IN Report(bad) /\ nbad' = nbad + Cardinality(bad)
        /\ PrintT("@@" \o ToString(<<"END", Tr.id, nbad', Tr.tags>>))
  /\ d' = d + 1 /\ UNCHANGED t
Next == DataStep \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
