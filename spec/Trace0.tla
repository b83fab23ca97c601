------------------------------- MODULE Trace0 -------------------------------
(* Recorded scenarios: one JSON object per line, {"id", "h": header, "ev": [events]} *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES sid, pos
tvars == <<sid, pos>>
Hdr == Traces[sid].h
Ev == Traces[sid].ev[pos]
More == pos <= Len(Traces[sid].ev)
TInit == sid \in 1..Len(Traces) /\ pos = 1
\* conjoined last: only reached when the step was allowed by the specification
Consume == /\ pos' = pos + 1 /\ UNCHANGED sid
           /\ (pos = Len(Traces[sid].ev)) => PrintT(<<"VF_DONE", sid>>)
=============================================================================
