------------------------------ MODULE Trace_Cmd ------------------------------
(* Replays recorded invocations of the commands.  The input file holds
     cases  <<[id, c, o, obs]>>: the files, the invocation, and what was seen:
            status, crash, out (lines of stdout), err (lines of stderr)
     outs   what counts: "status" "out" "err"                                *)
EXTENDS Commands, Json, IOUtils

VARIABLE ci

Input == JsonDeserialize(IOEnv.CMD_INPUT)
Cases == Input.cases
Outs == {Input.outs[i] : i \in 1..Len(Input.outs)}

ErrDiffers(exp, lines) ==
  \/ Len(exp) # Len(lines)
  \/ \E p \in SeqSet(exp) :
       CountOf(exp, p) # Cardinality({i \in 1..Len(lines) : StartsWith(lines[i], p) /\ Len(lines[i]) > Len(p)})
(* "status" also asks that status and findings agree with each other *)
Diffs(o, s, b) ==
  {x \in Outs :
    CASE x = "status" -> b.status # Status(o, s)
      [] x = "agree" -> Reports(o) /\ b.status # (IF b.err # <<>> THEN 1 ELSE 0)
      [] x = "out" -> Stdout(o, s) # b.out
      [] x = "err" -> ErrDiffers(Printed(o, s), b.err)
      [] OTHER -> FALSE}
Verdict(s) ==
  LET case == Cases[ci] b == case.obs o == case.o IN
  IF b.crash # "" THEN [id |-> case.id, ok |-> FALSE, diffs |-> {"crash"}, out |-> <<>>, err |-> <<>>, status |-> 0]
  ELSE LET d == Diffs(o, s, b) IN
       [id |-> case.id, ok |-> d = {}, diffs |-> d,
        out |-> IF "out" \in d THEN Stdout(o, s) ELSE <<>>,
        err |-> IF "err" \in d THEN Printed(o, s) ELSE <<>>,
        status |-> Status(o, s)]

Init == /\ ci \in 1..Len(Cases)
        /\ cs = [Cases[ci].c EXCEPT !.runs = RunsOf(Cases[ci].c, Cases[ci].o)]
        /\ st = St0(cs)
Judge == /\ Finished /\ st.ph # "judged"
         /\ PrintT("VERDICT " \o ToJson(Verdict(st)))
         /\ st' = [st EXCEPT !.ph = "judged"]
         /\ UNCHANGED cs
Next == (Step \/ Judge) /\ UNCHANGED ci
View == <<ci, st.k, st.ph>>
=============================================================================
