------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares: the recording, a position in it,  *)
(* and the way a rejected event is reported.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
ReportAt(i, S) == \A b \in S : PrintT(ToJson(<<"BAD", i>> \o b))
If(c, b) == IF c THEN {} ELSE {b}
Range(q) == { q[j] : j \in DOMAIN q }
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
