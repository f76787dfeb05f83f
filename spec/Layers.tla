------------------------------- MODULE Layers -------------------------------
(* The layer rule on its own: one snowcover object given depths, masses and *)
(* densities in turn, its layers recomputed each time.  All numbers of the  *)
(* menus are dyadic, so that every comparison of the rule, ties included,   *)
(* is exact and must come out alike in the implementation.                  *)
EXTENDS SnowPhysics, TLC

CONSTANTS Depth       \* changes in a behaviour

VARIABLES c, hist
vars == <<c, hist>>

Depths    == {F("0"), F("0.125"), F("0.25"), F("0.28125"), F("0.5"), F("1")}
Densities == {F("2"), F("4"), F("8"), F("32"), F("256")}
Configs == {[max_h2o |-> F("0.01"), max_z0 |-> z, thr |-> <<F("60"), F("10"), m>>, bias |-> 0]
             : z \in {F("0.25"), F("0.5")}, m \in {F("1"), F("2")}}

Init == c \in Configs /\ hist = <<>>
Recompute ==
  /\ Len(hist) < Depth
  /\ \E z \in Depths, r \in Densities :
       LET m == z \otimes r
           l == Layers(c, z, m, r)
       IN hist' = Append(hist, [z |-> z, rho |-> r, m |-> m, n |-> l.n, z0 |-> l.z0, zl |-> l.zl])
  /\ UNCHANGED c
Next == Recompute
Spec == Init /\ [][Next]_vars

\* C05, C06 of the rule itself
Rule ==
  \A i \in DOMAIN hist :
    LET h == hist[i] IN
    /\ (h.n = 0) <=> (h.m \preceq c.thr[3] \/ FEq(h.z, Zero))
    /\ (h.n = 0) => (FEq(h.z0, Zero) /\ FEq(h.zl, Zero))
    /\ (h.n > 0) => (FEq(h.z0 \oplus h.zl, h.z) /\ h.z0 \succ Zero)
    /\ (h.n = 2) <=> (h.zl \succ Zero)
    /\ (h.n = 2) => (FEq(h.z0, c.max_z0) /\ (h.zl \otimes h.rho) \succeq c.thr[3])
    /\ (h.n = 1) => \/ h.z0 \preceq c.max_z0
                  \/ ((h.z \ominus c.max_z0) \otimes h.rho) \prec c.thr[3]
Emit == Len(hist) = Depth => PrintT("@@" \o ToString(<<"CASE", c.max_z0, c.thr[3], hist>>))
=============================================================================
