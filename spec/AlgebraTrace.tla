---------------------------- MODULE AlgebraTrace ----------------------------
(* Recorded histories of the algebra layer against Algebra.tla *)
EXTENDS Algebra, Trace0
TraceInit == TInit /\ AInit(Hdr.p)
Same == UNCHANGED avars
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op \in FWriteOps -> FWrite(e) /\ e.r = fr'[e.d] /\ FIsElem(p, e.r)
         [] e.op \in FQueryOps -> Same /\ e.r = FQuery(e)
         [] e.op \in VWriteOps -> VWrite(e) /\ e.r = VList(vr'[e.d])
         [] e.op \in VQueryOps -> Same /\ e.r = VQuery(e)
         [] e.op = "impl" -> Same /\ e.r = 0                 \* which class holds the vectors of this history is no business of the specification
         [] e.op = "vcoeffint" -> Same /\ VCoeffInt(e, e.r)
         [] e.op \in MWriteOps -> MWrite(e) /\ e.r = MList(mr'[e.d])
         [] e.op \in MQueryOps -> Same /\ e.r = MQuery(e)
         [] e.op \in {"usolvev", "lsolvev"} -> Same /\ SolveV(e, e.r)
         [] e.op \in {"usolve", "lsolve"} -> Same /\ SolveM(e, e.r)
         [] e.op = "uinv" -> Same /\ MInverse(mr[e.d], e.r) /\ MUpper(MOf(e.r))
         [] e.op = "linv" -> Same /\ MInverse(mr[e.d], e.r) /\ MLower(MOf(e.r))
         [] e.op = "inv" -> Same /\ MInverse(mr[e.d], e.r)
         [] e.op \in FactOps -> Same /\ Fact(e, e.r)
         [] e.op = "comm" -> Same /\ Commute(e, e.r)
         [] OTHER -> FALSE
    /\ Consume
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, tvars>>
=============================================================================
