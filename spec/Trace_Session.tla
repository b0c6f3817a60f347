---------------------------- MODULE Trace_Session -----------------------------
(* Requests to the real web service, judged one by one as if each were the
   first: the answer is what Lint says of the posted file alone.  A case has
     c    the case of Lint, one file, extensions.conf
     obs  [refused, msgs, cli]: msgs is a sequence of [l, c], with the text d
          if the answer is compared to what the program prints of the same
          file: cli is <<lines>> then, and <<>> otherwise                     *)
EXTENDS Observe, Json, IOUtils

VARIABLE ci

Input == JsonDeserialize(IOEnv.SESSION_INPUT)
Cases == Input.cases

Root == S("extensions.conf")
(* only the posted file can be opened *)
Refuses ==
  /\ st.ph = "elem" /\ st.elem.k = "pp" /\ st.elem.what \in {"include", "tryinclude"}
  /\ NormPath(PathJoin(DirName(WhereF(st)), st.elem.rest)) # Root
InOrder(ms) == SortBy([i \in 1..Len(ms) |-> [l |-> ms[i].l, c |-> ms[i].c]],
                      LAMBDA a, b: a.l < b.l \/ (a.l = b.l /\ SeqLess(S(a.c), S(b.c))))
(* the same texts, as a bag, as on the command line *)
AsPrinted(m) == Root \o S(":") \o NatDigits(m.l) \o S(" ") \o S(m.c) \o S(": ") \o m.d
SameTexts(o) ==
  \/ o.cli = <<>>
  \/ LET ours == [i \in 1..Len(o.msgs) |-> AsPrinted(o.msgs[i])] IN
     Len(ours) = Len(o.cli[1]) /\ \A i \in 1..Len(ours) : CountOf(ours, ours[i]) = CountOf(o.cli[1], ours[i])
NoTexts(ms) == [i \in 1..Len(ms) |-> [l |-> ms[i].l, c |-> ms[i].c]]
Verdict(s, refused) ==
  LET k == Cases[ci] o == k.obs
      ok == IF refused THEN o.refused ELSE ~o.refused /\ InOrder(s.msgs) = NoTexts(o.msgs) /\ SameTexts(o)
  IN [id |-> k.id, ok |-> ok, refused |-> refused, msgs |-> IF ok THEN <<>> ELSE InOrder(s.msgs)]

Init == /\ ci \in 1..Len(Cases)
        /\ cs = Cases[ci].c
        /\ st = St0(cs)
Judge == /\ Finished /\ st.ph # "judged"
         /\ PrintT("VERDICT " \o ToJson(Verdict(st, FALSE)))
         /\ st' = [st EXCEPT !.ph = "judged"]
         /\ UNCHANGED cs
Refuse == /\ Refuses
          /\ PrintT("VERDICT " \o ToJson(Verdict(st, TRUE)))
          /\ st' = [st EXCEPT !.ph = "judged", !.run = 0]
          /\ UNCHANGED cs
Next == ((~Refuses /\ Step) \/ Refuse \/ Judge) /\ UNCHANGED ci
View == <<ci, st.k, st.ph>>
=============================================================================
