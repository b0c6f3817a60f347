----------------------------- MODULE Trace_Lint ------------------------------
(* Replays recorded runs of the real linter through the state machine of Lint
   and compares everything that was observed.  The input file holds
     cases   <<[c: the case of Lint, obs: what was observed]>>
     classes the message classes that count ("*" for all)
     outs    the other outputs that count
   Every case ends with one verdict line, naming what differs.               *)
EXTENDS Observe, Json, IOUtils

VARIABLE ci

Input == JsonDeserialize(IOEnv.LINT_INPUT)
Cases == Input.cases
Classes == {Input.classes[i] : i \in 1..Len(Input.classes)}
Outs == {Input.outs[i] : i \in 1..Len(Input.outs)}
All == "*" \in Classes
Counts(c) == All \/ c \in Classes

(* JSON has no empty sequence of its own kind: keep what is compared small. *)
MsgBag(ms) == SelectSeq(ms, LAMBDA m: Counts(m.c))
ClassesOf(a, b) == {a[i].c : i \in 1..Len(a)} \cup {b[i].c : i \in 1..Len(b)}
Only(ms, c) == SelectSeq(ms, LAMBDA m: m.c = c)
MsgDiffs(exp, got) ==
  {c \in ClassesOf(exp, got) : ~SameBag(Only(exp, c), Only(got, c))}

(* parts of the dialplan *)
Prios(cc) == [i \in 1..Len(cc) |-> [j \in 1..Len(cc[i].exts) |->
                LET x == cc[i].exts[j] IN <<x.raw, x.prio, x.f, x.l>>]]
Members2(cc) == [i \in 1..Len(cc) |-> <<cc[i].name, cc[i].incs, [j \in 1..Len(cc[i].exts) |->
                LET x == cc[i].exts[j] IN <<x.f, x.l>>]>>]
Places(ms) == [i \in 1..Len(ms) |-> <<ms[i].f, ms[i].l>>]

(* Asterisk itself changes its mind about BackGround: not compared. *)
OutDiffs(s, o) ==
  {x \in Outs :
    CASE x = "read" -> s.read # o.read
      [] x = "conf" -> s.conf # o.conf
      [] x = "ctxs" -> ExpCtxs(s) # o.ctxs
      [] x = "prios" -> Prios(ExpCtxs(s)) # Prios(o.ctxs)
      [] x = "members" -> Members2(ExpCtxs(s)) # Members2(o.ctxs)
      [] x = "places" -> \E c \in ClassesOf(s.msgs, o.msgs) :
                          LET e == Places(Only(s.msgs, c)) g == Places(Only(o.msgs, c))
                          IN Len(e) = Len(g) /\ ~SameBag(e, g)
      [] x = "general" -> s.dp.gsets # o.gsets \/ s.dp.vsets # o.vsets
      [] x = "show" -> ShowDp(s.dp, FALSE) # o.show \/ ShowDp(s.dp, TRUE) # o.rshow
      [] x = "vars" -> ~SameBag(s.vars, o.vars)
      [] OTHER -> FALSE}

Verdict(s) ==
  LET o == Cases[ci].obs IN
  IF o.crash # "" THEN [id |-> Cases[ci].id, ok |-> FALSE, msgs |-> {}, outs |-> {"crash"},
                        exp |-> <<>>, got |-> <<>>]
  ELSE LET e == MsgBag(s.msgs) g == MsgBag(o.msgs)
           d == MsgDiffs(e, g)
           x == OutDiffs(s, o)
       IN [id |-> Cases[ci].id, ok |-> d = {} /\ x = {}, msgs |-> d, outs |-> x,
           exp |-> SelectSeq(e, LAMBDA m: m.c \in d), got |-> SelectSeq(g, LAMBDA m: m.c \in d)]

Init == /\ ci \in 1..Len(Cases)
        /\ cs = Cases[ci].c
        /\ st = St0(cs)
Judge == /\ Finished /\ st.ph # "judged"
         /\ PrintT("VERDICT " \o ToJson(Verdict(st)))
         /\ st' = [st EXCEPT !.ph = "judged"]
         /\ UNCHANGED cs
Next == (Step \/ Judge) /\ UNCHANGED ci
View == <<ci, st.k, st.ph>>
=============================================================================
