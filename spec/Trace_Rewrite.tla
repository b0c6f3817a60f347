---------------------------- MODULE Trace_Rewrite -----------------------------
(* Runs of the real rewriting tools on real files.  The linter (Lint) finds
   the lines at issue, this module says what becomes of them, and the outcome
   of the run is judged.  A case has
     c     the case of Lint; links are files of their own here
     real  per file of c, the number of the file that it is in the end
     tool  "canonical" or "convert"
     answer what was typed (code points)
     obs   [status, asked, files, extra]: per file of c [lines, same, attrs,
           link]: what is there now, whether it is untouched, whether owner and
           mode are as they were, whether what was a link still is it (and what
           was not is not); extra: names that were not there before
     fault "none", "error" or "kill"                                          *)
EXTENDS Observe, Json, IOUtils

VARIABLE ci

Input == JsonDeserialize(IOEnv.REWRITE_INPUT)
Cases == Input.cases

(* ---- one line ---- *)
Find(s, p) ==
  IF \E i \in 1..(Len(s) - Len(p) + 1) : \A j \in 1..Len(p) : s[i+j-1] = p[j]
  THEN CHOOSE i \in 1..(Len(s) - Len(p) + 1) :
         /\ \A j \in 1..Len(p) : s[i+j-1] = p[j]
         /\ \A h \in 1..(i-1) : \E j \in 1..Len(p) : s[h+j-1] # p[j]
  ELSE 0
Swap(s, i, old, new) == SubSeq(s, 1, i - 1) \o new \o From(s, i + Len(old))
Fail == <<-1>>
(* The pattern of the line becomes the canonical one; [ln] is in bytes. *)
Canonicalise(ln, a) ==
  LET parts == SplitAll(a, -1)
      eq == Idx(ln, 61)
      tail == From(ln, eq + 1)
      i == Find(tail, parts[1])
  IN IF i = 0 THEN ln ELSE SubSeq(ln, 1, eq) \o Swap(tail, i, parts[1], parts[2])
(* ExecIf(cond,app,args) becomes ExecIf(cond?app(args)). *)
sExecIf == S("ExecIf")
Modernise(ln, a) ==
  LET parts == SplitAll(a, -1)
      old == <<40>> \o Utf8Encode(parts[2])
      new == <<40>> \o Utf8Encode(parts[3] \o <<63>> \o parts[4] \o <<40>>
               \o Join(SubSeq(parts, 5, Len(parts)), <<44>>) \o <<41>>)
      i == Find(ln, old)
  IN IF parts[1] # sExecIf \/ i = 0 \/ new = old THEN Fail ELSE Swap(ln, i, old, new)

Class(tool) == IF tool = "canonical" THEN "H_PAT_NON_CANONICAL" ELSE "E_APP_ARG_IFSTYLE"
FilesOf(k) == 1..Len(k.c.files)
(* what is to be said about line j of the file that r is in the end *)
AtIssue(s, k, r, j) ==
  SelectSeq(s.msgs, LAMBDA m: /\ m.c = Class(k.tool) /\ m.l = j
                              /\ FileNo(k.c, m.f) # 0 /\ k.real[FileNo(k.c, m.f)] = r)
NewLine(s, k, r, j) ==
  LET ms == AtIssue(s, k, r, j) ln == k.c.files[r].lines[j] IN
  IF ms = <<>> THEN ln
  ELSE IF k.tool = "canonical" THEN Canonicalise(ln, ms[1].a) ELSE Modernise(ln, ms[1].a)
Old(k, r) == k.c.files[r].lines
New(s, k, r) == [j \in 1..Len(Old(k, r)) |-> NewLine(s, k, r, j)]

Yes == <<121>>
sY == Yes
Judgement(s, k) ==
  LET o == k.obs
      real == {k.real[i] : i \in FilesOf(k)}
      new == [r \in real |-> New(s, k, r)]
      fails == [r \in real |-> \E j \in 1..Len(new[r]) : new[r][j] = Fail]
      issue == [r \in real |-> \E j \in 1..Len(Old(k, r)) : AtIssue(s, k, r, j) # <<>>]
      yes == k.answer = sY
      asked == \E r \in real : issue[r]
      isNew(r) == Flat(o.files[r].lines) = Flat(new[r])
  IN {x \in {"files", "attributes", "links", "untouched", "permission", "unfinished", "temporary", "asked"} :
      CASE x = "files" -> \E r \in real :
             ~(o.files[r].same \/ (issue[r] /\ yes /\ ~fails[r] /\ isNew(r)))
        [] x = "attributes" -> \E i \in FilesOf(k) : ~o.files[i].attrs
        [] x = "links" -> \E i \in FilesOf(k) : ~o.files[i].link
        [] x = "untouched" -> \E r \in real : ~issue[r] /\ ~o.files[r].same
        [] x = "permission" -> ~yes /\ (o.extra # <<>> \/ \E r \in real : ~o.files[r].same)
        [] x = "unfinished" -> /\ yes /\ k.fault = "none" /\ ~\E r \in real : fails[r]
                               /\ \E r \in real : issue[r] /\ ~isNew(r)
        [] x = "temporary" -> k.fault # "kill" /\ o.extra # <<>>
        [] x = "asked" -> o.asked # asked /\ k.fault = "none"
        [] OTHER -> FALSE}
Verdict(s) ==
  LET k == Cases[ci] d == Judgement(s, k) IN
  [id |-> k.id, ok |-> d = {}, what |-> d, issues |-> Cardinality({i \in 1..Len(s.msgs) : s.msgs[i].c = Class(k.tool)}),
   new |-> IF d = {} THEN <<>> ELSE [i \in FilesOf(k) |-> New(s, k, k.real[i])]]

Init == /\ ci \in 1..Len(Cases)
        /\ cs = Cases[ci].c
        /\ st = St0(cs)
Judge == /\ Finished /\ st.ph # "judged"
         /\ PrintT("VERDICT " \o ToJson(Verdict(st)))
         /\ st' = [st EXCEPT !.ph = "judged"]
         /\ UNCHANGED cs
Next == (Step \/ Judge) /\ UNCHANGED ci
View == <<ci, st.k, st.ph>>
=============================================================================
