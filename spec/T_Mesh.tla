-------------------------------- MODULE T_Mesh --------------------------------
(* Recorded calls of the domain and mesh functions. *)
EXTENDS Mesh, Obs
VARIABLES c, l, st
InitSt(cs) == [k |-> 0]
StepSt(cs, s, ev) == [k |-> s.k + 1]
GridFailsV(ev, G) ==
    Clause(MatIs(ev.pts, G), "grid:points") \cup
    Clause(Len(ev.mesh) = Len(ev.B) /\ \A j \in 1..Len(ev.mesh) : ArrIs(ev.mesh[j], GridShape(ev.B, ev.n), G[j]), "grid:mesh")
GridFails(ev, G) == By2(GridFailsV, ev, G)
Fails(cs, s, t, ev) ==
    CASE ev.op = "fit" ->
           IF ev.X = <<>> /\ ev.B = <<>> THEN Clause(IsErr(ev.obs) /\ ev.obs.t = "ValueError", "fit-domain:refused")
           ELSE Clause(MatIs(ev.obs, FitBox(ev.X, ev.B, ev.p)), "fit-domain")
      [] ev.op = "mesh2" ->
           LET lo == IF ev.kind = "unit" THEN Zero ELSE Neg(ev.w)
           IN Clause(ArrIs(ev.X, <<ev.n, ev.n>>, MeshX(lo, ev.w, ev.n)), ev.kind \o "-mesh:X") \cup
              Clause(ArrIs(ev.Y, <<ev.n, ev.n>>, MeshY(lo, ev.w, ev.n)), ev.kind \o "-mesh:Y") \cup
              Clause(MatIs(ev.L, MeshList(lo, ev.w, ev.n)), ev.kind \o "-mesh:points")
      [] ev.op = "grid" ->
           GridFails(ev, GridPts(ev.B, ev.n))
      [] ev.op = "shape" ->
           Clause(ArrIs(ev.obs, IF Len(ev.shape) < 2 THEN Reshaped(ev.target, Len(ev.v)) ELSE ev.shape, ev.v), "set-shape")
Undecided(cs, s, t, ev) == FALSE
INSTANCE TraceBase
=============================================================================
