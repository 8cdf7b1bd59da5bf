------------------------------ MODULE VFTrace ------------------------------
(***************************************************************************)
(* What all the trace specifications share.  A trace file is a sequence    *)
(* of cases recorded from the real code; the trace specification consumes  *)
(* all of them, reports by name each clause that a case breaks, and goes   *)
(* on: a verdict is total.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* Evaluated once by TLC
Cases == JsonDeserialize(IOEnv.TRACE)

\* PrintT is always TRUE
Fail(case, what)  == PrintT("VFFAIL|" \o ToString(case.id) \o "|" \o what)
Known(case, what) == PrintT("VFKNOWN|" \o ToString(case.id) \o "|" \o what)
Req(case, what, cond) == IF cond THEN TRUE ELSE Fail(case, what)
Done(n) == PrintT("VFDONE|" \o ToString(n))

ToSet(s) == {s[i] : i \in DOMAIN s}
NoDups(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
