----------------------------- MODULE Trace_Props -----------------------------
(* The statements of Props on given inputs: bigger ones than MC_Lint has.      *)
EXTENDS Props, Json, IOUtils

VARIABLE ci

Input == JsonDeserialize(IOEnv.LINT_INPUT)
Cases == Input.cases
Init == /\ ci \in 1..Len(Cases)
        /\ cs = Cases[ci].c
        /\ st = St0(cs)
Next == Step /\ UNCHANGED ci
View == <<ci, st.k, st.ph>>

Single == Len(cs.runs) = 1 /\ cs.odbc = <<>>
Done(P(_)) == Finished /\ Single => LET in == FlatInput IN P(in)
DoneOnce(P(_)) == Finished /\ Single => LET in == FlatInput IN Distinct(in) => P(in)
Inv01 == Done(Attributed)
Inv02 == Done(C02Holds)
Inv03 == Done(C03Holds)
Inv04 == Done(C04Holds)
Inv05 == Done(C05Holds)
Inv06 == NeverTwiceOpen /\ Done(C06Holds)
Inv07 == DoneOnce(C07Holds)
Inv08 == DoneOnce(C08Holds)
Inv09 == DoneOnce(C09Holds)
Inv10 == Finished => C10Holds
Inv13 == DoneOnce(C13Holds)
Inv17 == DoneOnce(C17Holds)
Inv18 == DoneOnce(C18Holds)
Inv26 == Done(C26Holds)
=============================================================================
