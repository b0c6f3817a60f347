-------------------------------- MODULE Lint ---------------------------------
(* The linter as a state machine.  cs is the case (the file tree and what to
   run on it), st the state of the linter.  A physical line takes two steps:
   it is read (bytes, terminator, comment), and the element it holds is then
   applied.  Included files are a stack of open files.

   cs:  files  <<[name, lines]>>  names are code points, a line is its bytes
                                  with terminator (LF only at the end)
        runs   <<[mode, root]>>   parsers run one after another; mode is
                                  "reader" "conf" "dialplan" "odbc"
        ver    "v11" "v13" "vall"
        odbc   <<[l, n]>>         functions known beforehand
        links  <<[name, to]>>     symbolic links, if any
        vg     TRUE: read in the dialect of contrib/commands/vg.py

   A line and the element it holds have a place, st.at; with folded lines (vg)
   the reader is ahead of what is applied: st.held is the line that may still
   go on, st.pend a directive that is to come after it.                      *)
EXTENDS Conf, Pattern, Apps

VARIABLES cs, st

CaseOk(c) == \A f \in 1..Len(c.files) : \A i \in 1..Len(c.files[f].lines) :
               LET l == c.files[f].lines[i] IN
               /\ Len(l) > 0
               /\ \A j \in 1..(Len(l) - 1) : l[j] # 10
               /\ i < Len(c.files[f].lines) => l[Len(l)] = 10

(* one file may have many names *)
Real(c, path) == IF "links" \in DOMAIN c THEN RealPath(c.links, path) ELSE NormPath(path)
FileNo(c, path) ==
  LET n == Real(c, path) IN
  IF \E i \in 1..Len(c.files) : Real(c, c.files[i].name) = n
  THEN CHOOSE i \in 1..Len(c.files) : Real(c, c.files[i].name) = n ELSE 0

Cat2(a, b) == a \o <<-1>> \o b
Cat3(a, b, c) == a \o <<-1>> \o b \o <<-1>> \o c
PlaceText(f, l) == Cat2(f, NatDigits(l))

Msg(s, c, f, l, a) == [s EXCEPT !.msgs = Append(s.msgs, [c |-> c, f |-> f, l |-> l, a |-> a])]
(* all <<class, arg>> of ms, at one place *)
Msgs(s, ms, f, l) ==
  [s EXCEPT !.msgs = s.msgs \o [i \in 1..Len(ms) |-> [c |-> ms[i][1], f |-> f, l |-> l, a |-> ms[i][2]]]]
If(b, s, t) == IF b THEN s ELSE t

NoDp == [gen |-> <<>>, glob |-> <<>>, gsets |-> <<>>, vsets |-> <<>>, ctxs |-> <<>>,
         last |-> <<>>, jumps |-> <<>>, labels |-> {}]

Frame(c, id, path) == [nm |-> path, fi |-> FileNo(c, path), ln |-> 0, id |-> id]
St0(c) == [ph |-> "start", run |-> 0, mode |-> "none",
           rd |-> <<>>, nid |-> 1, ff |-> <<>>, vs |-> <<>>,
           at |-> [f |-> <<>>, l |-> 0, ids |-> <<>>], held |-> <<>>, pend |-> <<>>,
           msgs |-> <<>>, read |-> <<>>, elem |-> [k |-> "none"], cmt |-> FALSE,
           conf |-> <<>>, cur |-> [k |-> "none", i |-> 0], dp |-> NoDp,
           reg |-> c.odbc, bg |-> <<>>, uf |-> <<>>, ua |-> <<>>, vars |-> <<>>, k |-> 0]

Top(s) == s.rd[Len(s.rd)]
WhereF(s) == s.at.f
WhereL(s) == s.at.l
Vg(c) == "vg" \in DOMAIN c /\ c.vg
MoreIn(c, fr) == fr.ln < Len(c.files[fr.fi].lines)

(* ---------- file format, per file name ---------- *)
FfClose(s, e) ==
  IF e.dos /\ e.lf THEN Msg(s, "W_FILE_DOS_EOFCRLF", e.nm, e.ln, <<>>)
  ELSE IF ~e.dos /\ ~e.lf THEN Msg(s, "W_FILE_UNIX_NOLF", e.nm, e.ln, <<>>)
  ELSE s
RECURSIVE FfPop(_, _)
FfPop(s, nm) ==
  IF s.ff = <<>> \/ s.ff[Len(s.ff)].nm = nm THEN s
  ELSE LET e == s.ff[Len(s.ff)] IN
       FfPop(FfClose([s EXCEPT !.ff = SubSeq(s.ff, 1, Len(s.ff) - 1)], e), nm)
FfLine(s, r) ==
  LET f == WhereF(s) l == WhereL(s)
      known == \E i \in 1..Len(s.ff) : s.ff[i].nm = f
      s1 == IF known THEN FfPop(s, f)
            ELSE [s EXCEPT !.ff = Append(s.ff, [nm |-> f, dos |-> r.crlf \/ ~r.lf, lf |-> r.lf, ln |-> l])]
      n == Len(s1.ff)
      s2 == [s1 EXCEPT !.ff[n].lf = r.lf, !.ff[n].ln = l]
  IN IF s2.ff[n].dos THEN (IF r.lf /\ ~r.crlf THEN Msg(s2, "W_FILE_DOS_BARELF", f, l, <<>>) ELSE s2)
     ELSE IF r.crlf THEN Msg(s2, "W_FILE_UNIX_CRLF", f, l, <<>>) ELSE s2

(* ---------- vertical white space, per open file ---------- *)
(* maximal runs of blanks with and without comment *)
Groups(bl) ==
  FoldLeft(LAMBDA a, b: IF a # <<>> /\ a[Len(a)][1].c = b.c
                        THEN [a EXCEPT ![Len(a)] = Append(a[Len(a)], b)]
                        ELSE Append(a, <<b>>), <<>>, bl)
VsTooMany(s, groups, max, class) ==
  FoldLeft(LAMBDA a, g: IF ~g[1].c /\ Len(g) > max
                        THEN Msg(a, class, g[Len(g)].f, g[Len(g)].l, <<>>) ELSE a, s, groups)
VsElem(s, isCtx) ==
  LET n == Len(s.vs)
      fr == s.vs[n]
      min == IF isCtx /\ fr.lcv > 2 THEN 1 ELSE 0
      max == IF isCtx THEN 2 ELSE 1
      class == IF isCtx THEN "H_WSV_CTX_BETWEEN" ELSE "H_WSV_VARSET_BETWEEN"
      gs == Groups(fr.blanks)
      top == fr.bof /\ ~gs[1][1].c
      s1 == [s EXCEPT !.vs[n] = [fr EXCEPT !.blanks = <<>>, !.bof = FALSE,
                                           !.lcv = IF isCtx THEN 0 ELSE fr.lcv + 1]]
  IN IF Len(fr.blanks) < min THEN Msg(s1, class, WhereF(s), WhereL(s), <<>>)
     ELSE IF fr.blanks = <<>> THEN s1
     ELSE VsTooMany(IF top THEN Msg(s1, "W_WSV_BOF", gs[1][1].f, gs[1][1].l, <<>>) ELSE s1,
                    IF top THEN Tail(gs) ELSE gs, max, class)
VsClose(s, fr, report) ==
  IF fr.blanks = <<>> THEN s
  ELSE LET gs == Groups(fr.blanks)
           lastb == gs[Len(gs)]
           tail == ~lastb[1].c
           s1 == VsTooMany(s, IF tail THEN SubSeq(gs, 1, Len(gs) - 1) ELSE gs, 2, "H_WSV_CTX_BETWEEN")
       IN IF tail /\ report THEN Msg(s1, "W_WSV_EOF", lastb[Len(lastb)].f, lastb[Len(lastb)].l, <<>>) ELSE s1
RECURSIVE VsSync(_)
(* align the frames with the files that were open at the line *)
VsSync(s) ==
  LET n == Len(s.vs) ids == s.at.ids IN
  IF n > Len(ids) \/ (n > 0 /\ s.vs[n].id # ids[n])
  THEN VsSync(VsClose([s EXCEPT !.vs = SubSeq(s.vs, 1, n - 1)], s.vs[n], TRUE))
  ELSE [s EXCEPT !.vs = s.vs \o [i \in 1..(Len(ids) - n) |->
          [id |-> ids[n + i], bof |-> TRUE, blanks |-> <<>>, lcv |-> 0]]]
VsBlank(s) ==
  LET s1 == VsSync(s) n == Len(s1.vs) IN
  [s1 EXCEPT !.vs[n].blanks = Append(s1.vs[n].blanks, [c |-> s.cmt, f |-> WhereF(s), l |-> WhereL(s)])]
VsEnd(s) ==
  FoldLeft(LAMBDA a, i: LET n == Len(s.vs) + 1 - i IN VsClose([a EXCEPT !.vs = SubSeq(s.vs, 1, n - 1)], s.vs[n], i = 1),
           s, [i \in 1..Len(s.vs) |-> i])

(* ---------- starting a parser, reading, closing ---------- *)
StartRun ==
  /\ st.ph = "start" /\ st.run < Len(cs.runs)
  /\ LET r == cs.runs[st.run + 1] IN
     st' = [st EXCEPT !.ph = "read", !.run = st.run + 1, !.mode = r.mode,
                      !.rd = <<Frame(cs, st.nid, r.root)>>, !.nid = st.nid + 1,
                      !.ff = <<>>, !.vs = <<>>, !.held = <<>>, !.pend = <<>>, !.conf = <<>>, !.dp = NoDp,
                      !.cur = [k |-> "none", i |-> 0], !.k = st.k + 1]
  /\ UNCHANGED cs

AtEnd(s) == s.pend = <<>> /\ ~MoreIn(cs, Top(s))
(* the included file is exhausted: go on after the directive *)
PopFile ==
  /\ st.ph = "read" /\ Len(st.rd) > 1 /\ AtEnd(st)
  /\ st' = [st EXCEPT !.rd = SubSeq(st.rd, 1, Len(st.rd) - 1), !.k = st.k + 1]
  /\ UNCHANGED cs

(* A line that is complete: x = [at, data, comment] *)
Emit(s, x) ==
  IF s.mode = "reader"
  THEN [s EXCEPT !.read = Append(s.read, [f |-> x.at.f, l |-> x.at.l, data |-> x.data, comment |-> x.comment])]
  ELSE [s EXCEPT !.elem = Classify(x.data), !.cmt = x.comment # <<>>, !.at = x.at, !.ph = "elem"]

ReadNext(s, bytes) ==
  LET at == [f |-> Top(s).nm, l |-> Top(s).ln + 1, ids |-> [i \in 1..Len(s.rd) |-> s.rd[i].id]]
      s0 == [s EXCEPT !.rd[Len(s.rd)].ln = Top(s).ln + 1, !.at = at]
      r == RawLine(bytes)
      s1 == If(r.bad, Msg(s0, "E_FILE_UTF8_BAD", at.f, at.l, <<>>), s0)
      s2 == If(r.ctrl, Msg(s1, "W_FILE_CTRL_CHAR", at.f, at.l, <<>>), s1)
      s3 == FfLine(s2, r)
      d == IF Vg(cs) THEN VgReadLine(r.body) ELSE ReadLine(r.body)
      s4 == Msgs(s3, d.ms, at.f, at.l)
      new == [at |-> at, data |-> d.data, comment |-> d.comment]
      old == s.held[1]
      goesOn == s.held # <<>> /\ r.body # <<>> /\ IsBlank(r.body[1])
      direct == d.data # <<>> /\ d.data[1] = 35
  IN IF ~Vg(cs) THEN Emit(s4, new)
     ELSE IF goesOn
     THEN [If(old.data = <<>>, Msg(s4, "W_WSH_BOL", at.f, at.l, <<>>), s4)
           EXCEPT !.held = <<[old EXCEPT !.data = @ \o d.data, !.comment = @ \o d.comment]>>]
     ELSE IF s.held = <<>> THEN (IF direct THEN Emit(s4, new) ELSE [s4 EXCEPT !.held = <<new>>])
     ELSE IF direct THEN Emit([s4 EXCEPT !.held = <<>>, !.pend = <<new>>], old)
     ELSE Emit([s4 EXCEPT !.held = <<new>>], old)
ReadLineStep ==
  /\ st.ph = "read" /\ st.pend = <<>> /\ ~AtEnd(st)
  /\ st' = [ReadNext(st, cs.files[Top(st).fi].lines[Top(st).ln + 1]) EXCEPT !.k = st.k + 1]
  /\ UNCHANGED cs

(* the directive after a line that was held *)
TakePending ==
  /\ st.ph = "read" /\ st.pend # <<>>
  /\ st' = [Emit([st EXCEPT !.pend = <<>>], st.pend[1]) EXCEPT !.k = st.k + 1]
  /\ UNCHANGED cs
(* nothing can follow the line that is held *)
LastHeld ==
  /\ st.ph = "read" /\ Len(st.rd) = 1 /\ AtEnd(st) /\ st.held # <<>>
  /\ st' = [Emit([st EXCEPT !.held = <<>>], st.held[1]) EXCEPT !.k = st.k + 1]
  /\ UNCHANGED cs

(* ---------- preprocessor ---------- *)
Include(s, rest, hard) ==
  LET f == WhereF(s) l == WhereL(s)
      path == PathJoin(DirName(f), rest)
      fi == FileNo(cs, path)
      real == Real(cs, path)
  IN IF \E i \in 1..Len(s.rd) : Real(cs, s.rd[i].nm) = real
     THEN Msg(s, "E_PP_INCLUDE_LOOP", f, l, rest)
     ELSE IF fi = 0 THEN If(hard, Msg(s, "W_PP_INCLUDE_MISSING", f, l, rest), s)
     ELSE [s EXCEPT !.rd = Append(s.rd, Frame(cs, s.nid, path)), !.nid = s.nid + 1]
ApplyDirective ==
  /\ st.ph = "elem" /\ st.elem.k = "pp"
  /\ LET e == st.elem
         s1 == Msgs([st EXCEPT !.ph = "read"], e.ms, WhereF(st), WhereL(st))
     IN st' = [IF e.what \in {"include", "tryinclude"} THEN Include(s1, e.rest, e.what = "include") ELSE s1
               EXCEPT !.k = st.k + 1]
  /\ UNCHANGED cs
ApplyBad ==
  /\ st.ph = "elem" /\ st.elem.k = "bad"
  /\ st' = Msgs([st EXCEPT !.ph = "read", !.k = st.k + 1], st.elem.ms, WhereF(st), WhereL(st))
  /\ UNCHANGED cs
ApplyBlank ==
  /\ st.ph = "elem" /\ st.elem.k = "empty"
  /\ st' = [VsBlank(st) EXCEPT !.ph = "read", !.k = st.k + 1]
  /\ UNCHANGED cs

(* ---------- headers ---------- *)
sGeneral == S("general")
sGlobals == S("globals")
CtxNo(s, name) ==
  IF \E i \in 1..Len(s.dp.ctxs) : s.dp.ctxs[i].name = name
  THEN CHOOSE i \in 1..Len(s.dp.ctxs) : s.dp.ctxs[i].name = name ELSE 0

NewCtx(name, f, l) == [name |-> name, f |-> f, l |-> l, exts |-> <<>>, incs |-> <<>>, clp |-> FALSE]
DpHeader(s, name, tmpl) ==
  LET f == WhereF(s) l == WhereL(s)
      here == <<[f |-> f, l |-> l]>>
      dp == s.dp
      i == CtxNo(s, name)
  IN
  IF name = sGeneral
  THEN LET s1 == IF dp.gen # <<>>
                 THEN Msg(s, "W_CONF_CTX_DUPE", f, l, PlaceText(dp.gen[1].f, dp.gen[1].l))
                 ELSE If(dp.glob # <<>> \/ dp.ctxs # <<>>, Msg(s, "H_DP_GENERAL_MISPLACED", f, l, <<>>),
                         s)
       IN [s1 EXCEPT !.dp.gen = IF dp.gen = <<>> THEN here ELSE dp.gen, !.cur = [k |-> "gen", i |-> 0]]
  ELSE IF name = sGlobals
  THEN IF dp.glob # <<>>
       THEN [Msg(s, "E_DP_GLOBALS_DUPE", f, l, PlaceText(dp.glob[1].f, dp.glob[1].l))
             EXCEPT !.cur = [k |-> "drop", i |-> 0]]
       ELSE [If(dp.gen = <<>> \/ dp.ctxs # <<>>, Msg(s, "H_DP_GLOBALS_MISPLACED", f, l, <<>>), s)
             EXCEPT !.dp.glob = here, !.cur = [k |-> "glob", i |-> 0]]
  ELSE LET s1 == If(tmpl, Msg(s, "I_NOTIMPL_TEMPLATES", f, l, <<>>), s) IN
       IF i # 0 /\ Vg(cs)
       THEN [s1 EXCEPT !.dp.ctxs = Append(SelectSeq(dp.ctxs, LAMBDA x: x.name # name), NewCtx(name, f, l)),
                       !.cur = [k |-> "ctx", i |-> Len(dp.ctxs)]]
       ELSE IF i # 0
       THEN [s1 EXCEPT !.dp.ctxs[i].f = f, !.dp.ctxs[i].l = l, !.dp.ctxs[i].clp = FALSE,
                       !.cur = [k |-> "ctx", i |-> i]]
       ELSE [s1 EXCEPT !.dp.ctxs = Append(dp.ctxs, NewCtx(name, f, l)),
                       !.cur = [k |-> "ctx", i |-> Len(dp.ctxs) + 1]]

OdbcNameOk(n) ==
  /\ n # <<>>
  /\ \A i \in 1..Len(n) : IsUpper(n[i]) \/ IsDigit(n[i]) \/ n[i] = 95
  /\ n[1] # 95 /\ n[Len(n)] # 95
  /\ \A i \in 1..(Len(n) - 1) : ~(n[i] = 95 /\ n[i+1] = 95)

ConfHeader(s, name) ==
  LET rest == IF Vg(cs) THEN SelectSeq(s.conf, LAMBDA x: x.name # name) ELSE s.conf IN
  [s EXCEPT !.conf = Append(rest, [name |-> name, f |-> WhereF(s), l |-> WhereL(s), sets |-> <<>>]),
            !.cur = [k |-> "conf", i |-> Len(rest) + 1]]

ApplyHeader ==
  /\ st.ph = "elem" /\ st.elem.k = "ctx"
  /\ LET e == st.elem
         f == WhereF(st) l == WhereL(st)
         s1 == [st EXCEPT !.ph = "read", !.k = st.k + 1]
         s2 == If(e.bol, Msg(s1, "W_WSH_BOL", f, l, <<>>), s1)
         s3 == If(e.tmpl, Msg(s2, "I_NOTIMPL_TEMPLATES", f, l, <<>>), s2)
         s4 == VsElem(VsSync(s3), TRUE)
     IN st' = IF st.mode = "dialplan" THEN DpHeader(s4, e.name, e.tmpl)
              ELSE IF st.mode = "odbc"
              THEN LET s5 == If(OdbcNameOk(e.name), s4, Msg(s4, "W_ODBC_BADTOKENS", f, l, e.name))
                       s6 == If(e.tmpl, Msg(s5, "I_NOTIMPL_TEMPLATES", f, l, <<>>), s5)
                   IN ConfHeader(s6, e.name)
              ELSE ConfHeader(s4, e.name)
  /\ UNCHANGED cs

(* ---------- settings of ordinary files ---------- *)
SetRec(s, e) == [var |-> e.var, val |-> e.val, arrow |-> e.arrow, f |-> WhereF(s), l |-> WhereL(s)]
ConfSet(s, e) ==
  [s EXCEPT !.conf[s.cur.i].sets = Append(s.conf[s.cur.i].sets, SetRec(s, e))]

(* ---------- settings of func_odbc.conf ---------- *)
OdbcKeys == [i \in 1..13 |-> S(<<"prefix", "synopsis", "dsn", "escapecommas", "mode", "rowlimit", "readhandle",
                                 "writehandle", "readsql", "writesql", "insertsql", "read", "write">>[i])]
OdbcPos(var) == IF \E i \in 1..13 : OdbcKeys[i] = var THEN CHOOSE i \in 1..13 : OdbcKeys[i] = var ELSE 0
OdbcSet(s, e) ==
  LET f == WhereF(s) l == WhereL(s)
      sets == s.conf[s.cur.i].sets
      pos == OdbcPos(e.var)
      prev == {j \in 1..Len(sets) : sets[j].var = e.var}
      late == sets # <<>> /\ pos < OdbcPos(sets[Len(sets)].var)
      s1 == If(late, Msg(s, "W_CONF_KEY_LATE", f, l, e.var), s)
      s2 == If(pos >= 12, Msg(s1, "W_ODBC_LEGACY", f, l, <<>>), s1)
      s3 == If(pos >= 9 /\ e.val # <<>> /\ e.val[Len(e.val)] = 59, Msg(s2, "W_ODBC_TAILSEMI", f, l, <<>>), s2)
  IN IF pos = 0 THEN Msg(s, "E_CONF_KEY_INVALID", f, l, e.var)
     ELSE IF prev # {}
     THEN LET j == CHOOSE j \in prev : \A k \in prev : j <= k IN
          Msg(s, "E_CONF_KEY_DUPE", f, l, Cat2(e.var, PlaceText(sets[j].f, sets[j].l)))
     ELSE ConfSet(s3, e)
OdbcGet(sec, key) ==
  IF \E j \in 1..Len(sec.sets) : sec.sets[j].var = key
  THEN sec.sets[CHOOSE j \in 1..Len(sec.sets) : /\ sec.sets[j].var = key
                                                /\ \A k \in 1..(j-1) : sec.sets[k].var # key].val
  ELSE <<>>
OdbcHas(sec, key) == \E j \in 1..Len(sec.sets) : sec.sets[j].var = key
OdbcUseful(sec) == \E q \in {"read", "write", "readsql", "writesql"} : OdbcHas(sec, S(q))
OdbcFunction(sec) ==
  LET p == OdbcGet(sec, S("prefix")) IN (IF p = <<>> THEN S("ODBC") ELSE p) \o <<95>> \o sec.name
OdbcFinish(s) ==
  FoldLeft(LAMBDA a, sec:
    IF OdbcUseful(sec)
    THEN LET n == OdbcFunction(sec) IN [a EXCEPT !.reg = Append(a.reg, [l |-> Lower(n), n |-> n])]
    ELSE Msg(a, "E_ODBC_NOSQL", sec.f, sec.l, <<>>), s, s.conf)

(* ---------- dialplan lines ---------- *)
NoLabel == <<-1>>
Truthy(label) == label # NoLabel /\ label # <<>>
RECURSIVE IncDigits(_)
IncDigits(d) == IF d = <<>> THEN <<49>>
                ELSE IF d[Len(d)] # 57 THEN [d EXCEPT ![Len(d)] = @ + 1]
                ELSE IncDigits(SubSeq(d, 1, Len(d) - 1)) \o <<48>>

(* exten => <pattern>,<prio>[(<label>)][,<app>] : [k, ...] *)
SplitExten(var, val) ==
  LET isExten == var = S("exten")
      p1 == Split1(val, 44)
      rest == IF isExten THEN p1[2] ELSE val
      p2 == Split1(rest, 44)
      p3 == Split1(p2[1], 40)
      labelRaw == p3[2]
      bad(c, a) == [k |-> "bad", c |-> c, a |-> a]
  IN IF isExten /\ Len(p1) = 1 THEN bad("E_DP_PRIO_MISSING", <<>>)
     ELSE IF isExten /\ p1[1] = <<>> THEN bad("E_DP_PAT_MISSING", <<>>)
     ELSE IF p3[1] = S("hint") THEN bad("I_NOTIMPL_HINT", <<>>)
     ELSE IF ~(p3[1] = S("n") \/ (AllDigits(p3[1]) /\ Len(p3[1]) <= 30)) THEN bad("E_DP_PRIO_INVALID", p3[1])
     ELSE IF Len(p3) = 2 /\ (labelRaw = <<>> \/ labelRaw[Len(labelRaw)] # 41) THEN bad("E_DP_LABEL_INVALID", labelRaw)
     ELSE [k |-> "ok",
           pat |-> IF isExten THEN p1[1] ELSE <<>>,
           prio |-> IF p3[1] = S("n") THEN <<>> ELSE NormDigits(p3[1]),
           label |-> IF Len(p3) = 2 THEN SubSeq(labelRaw, 1, Len(labelRaw) - 1) ELSE NoLabel,
           app |-> IF Len(p2) = 2 THEN p2[2] ELSE <<>>]

(* the destinations of the line, with what is left out filled in *)
JumpRec(tab, j, ctxName, pt, f, l) ==
  LET dec == Utf8Decode(Example(pt))
      ex == IF dec.bad THEN Example(pt) ELSE dec.out
      sub == IF HasVar(j[2]) THEN Subst(tab, j[2], ex) ELSE [ok |-> FALSE, t |-> <<>>]
      p == j[3]
  IN [c |-> IF j[1] = <<>> THEN ctxName ELSE j[1],
      e |-> IF j[2] = <<>> THEN ex ELSE IF sub.ok THEN sub.t ELSE j[2],
      p |-> IF AllDigits(p) /\ Len(p) <= 30 THEN NormDigits(p) ELSE p,
      int |-> AllDigits(p) /\ Len(p) <= 30,
      tab |-> tab, f |-> f, l |-> l]

(* An accepted line becomes part of context ci. *)
AddExten(s, ci, x, w, jumps) ==
  LET f == WhereF(s) l == WhereL(s)
      ctx == s.dp.ctxs[ci]
      exts == ctx.exts
      n == Len(exts)
      same == x.pat = <<>>
      pt == IF same THEN exts[n].pt ELSE ParsePat(x.pat)
      raw == IF same THEN exts[n].raw ELSE x.pat
      canon == IF same THEN exts[n].canon ELSE Canonical(pt)
      last == s.dp.last
      prio == IF x.prio = <<>> THEN IncDigits(last) ELSE x.prio
      mine == {j \in 1..n : PatEq(exts[j].pt, pt)}
      prev == CHOOSE j \in mine : \A k \in mine : k <= j
      badorder ==
        IF x.prio = <<>> THEN ~ctx.clp \/ n = 0 \/ ~PatEq(exts[n].pt, pt)
        ELSE x.prio # <<49>> /\ (mine = {} \/ (exts[prev].prio # x.prio /\ IncDigits(exts[prev].prio) # x.prio))
      s1 == If(badorder,
               Msg(s, "W_DP_PRIO_BADORDER", f, l, Cat2(raw, IF x.prio = <<>> THEN S("<unset>") ELSE x.prio)), s)
      s2 == [s1 EXCEPT !.dp.last = prio, !.dp.ctxs[ci].clp = TRUE]
      equiv == {j \in 1..n : exts[j].canon = canon}
      dupe == {j \in equiv : exts[j].prio = prio}
      \* labels live in the lines that were added; a wiped one is not there
      ldupe == {j \in equiv : Truthy(x.label) /\ exts[j].label = x.label}
      s3 == If(ldupe # {},
               LET j == CHOOSE j \in ldupe : \A k \in ldupe : j <= k IN
               Msg(s2, "E_DP_LABEL_DUPE", f, l, Cat2(x.label, PlaceText(exts[j].f, exts[j].l))), s2)
      label == IF ldupe # {} THEN <<>> ELSE x.label
      ext == [raw |-> raw, pt |-> pt, canon |-> canon, prio |-> prio, label |-> label, app |-> x.app, f |-> f, l |-> l]
  IN
  IF same /\ n = 0 THEN Msg(s, "E_DP_PAT_MISSING", f, l, <<>>)
  ELSE IF x.prio = <<>> /\ last = <<>> THEN Msg(s, "E_DP_PRIO_MISSING", f, l, raw)
  ELSE IF x.prio = <<48>> THEN Msg(s, "E_DP_PRIO_INVALID", f, l, <<48>>)
  ELSE IF dupe # {}
  THEN LET j == CHOOSE j \in dupe : TRUE IN
       Msg(s2, "E_DP_PRIO_DUPE", f, l, Cat2(prio, PlaceText(exts[j].f, exts[j].l)))
  ELSE [s3 EXCEPT !.dp.ctxs[ci].exts = Append(exts, ext),
                  !.dp.labels = IF Truthy(label) THEN @ \cup {label} ELSE @,
                  !.dp.jumps = @ \o [i \in 1..Len(jumps) |-> JumpRec(w.tab, jumps[i], ctx.name, pt, f, l)]]

DpExten(s, ci, e) ==
  LET f == WhereF(s) l == WhereL(s)
      x == SplitExten(e.var, e.val)
      pt == ParsePat(x.pat)
  IN IF x.k = "bad" THEN Msg(s, x.c, f, l, x.a)
     ELSE IF x.pat # <<>> /\ ~pt.ok THEN Msg(s, "E_DP_PAT_INVALID", f, l, <<>>)
     ELSE LET r == AppLine(W0([ver |-> cs.ver, odbc |-> s.reg], s.bg), x.app)
              w == r.w
              s1 == Msgs(s, w.ms, f, l)
              s2 == [s1 EXCEPT !.bg = w.bg, !.uf = s.uf \o w.uf, !.ua = s.ua \o w.ua,
                               !.vars = s.vars \o [i \in 1..Len(w.vars) |-> [n |-> w.vars[i], f |-> f]]]
              s3 == If(x.pat # <<>> /\ ~IsCanonical(x.pat, pt),
                       Msg(s2, "H_PAT_NON_CANONICAL", f, l, Cat2(Utf8Encode(x.pat), Canonical(pt))), s2)
          IN AddExten(s3, ci, x, w, r.jumps)

DpKeys == {S("exten"), S("same"), S("include"), S("switch"), S("ignorepat")}
DpSet(s, ci, e) ==
  LET f == WhereF(s) l == WhereL(s)
      s1 == If(~e.arrow, Msg(s, "H_CONF_NO_ARROW", f, l, <<>>), s)
  IN IF e.var \notin DpKeys THEN Msg(s, "E_CONF_KEY_INVALID", f, l, e.var)
     ELSE IF e.var = S("include") THEN [s1 EXCEPT !.dp.ctxs[ci].incs = Append(@, e.val)]
     ELSE IF e.var = S("switch") THEN Msg(s1, "I_NOTIMPL_SWITCH", f, l, <<>>)
     ELSE IF e.var = S("ignorepat") THEN Msg(s1, "I_NOTIMPL_IGNOREPAT", f, l, <<>>)
     ELSE DpExten(s1, ci, e)

ApplySetting ==
  /\ st.ph = "elem" /\ st.elem.k = "set"
  /\ LET e == st.elem
         f == WhereF(st) l == WhereL(st)
         s1 == Msgs([st EXCEPT !.ph = "read", !.k = st.k + 1], e.ms, f, l)
         s2 == VsElem(VsSync(s1), FALSE)
         s3 == If(st.mode = "odbc" /\ e.arrow, Msg(s2, "H_CONF_HAS_ARROW", f, l, <<>>), s2)
     IN st' = CASE st.cur.k = "none" -> Msg(s3, "E_CONF_CTX_MISSING", f, l, <<>>)
                [] st.cur.k = "drop" -> s3
                [] st.cur.k = "gen"  -> [s3 EXCEPT !.dp.gsets = Append(s3.dp.gsets, SetRec(s3, e))]
                [] st.cur.k = "glob" -> [s3 EXCEPT !.dp.vsets = Append(s3.dp.vsets, SetRec(s3, e))]
                [] st.cur.k = "ctx"  -> DpSet(s3, st.cur.i, e)
                [] st.cur.k = "conf" -> IF st.mode = "odbc" THEN OdbcSet(s3, e) ELSE ConfSet(s3, e)
  /\ UNCHANGED cs

(* ---------- the end of the input ---------- *)
DpComplete(s) ==
  IF s.dp.ctxs = <<>> THEN s
  ELSE LET f == s.dp.ctxs[1].f
           s1 == If(s.dp.gen = <<>>, Msg(s, "H_DP_GENERAL_MISPLACED", f, 0, <<>>), s)
       IN If(s.dp.glob = <<>>, Msg(s1, "H_DP_GLOBALS_MISPLACED", f, 0, <<>>), s1)
CloseInput(s) ==
  LET s1 == FfPop([s EXCEPT !.rd = <<>>], <<>>)
      s2 == VsEnd(s1)
  IN IF s.mode = "reader" THEN s1
     ELSE IF s.mode = "dialplan" THEN DpComplete(s2)
     ELSE IF s.mode = "odbc" THEN OdbcFinish(s2) ELSE s2
EndOfInput ==
  /\ st.ph = "read" /\ Len(st.rd) = 1 /\ AtEnd(st) /\ st.held = <<>>
  /\ st' = [CloseInput(st) EXCEPT !.ph = IF st.mode = "dialplan" THEN "goto" ELSE "start", !.k = st.k + 1]
  /\ UNCHANGED cs

(* ---------- goto destinations, one at a time ---------- *)
RECURSIVE Reach(_, _)
(* numbers of the contexts reachable from those in todo *)
Reach(dp, seen) ==
  LET next == seen \cup {j \in 1..Len(dp.ctxs) :
                \E i \in seen : \E m \in 1..Len(dp.ctxs[i].incs) : dp.ctxs[i].incs[m] = dp.ctxs[j].name}
  IN IF next = seen THEN seen ELSE Reach(dp, next)
PrioMatches(x, p, int) ==
  IF int THEN x.prio = p
  ELSE IF ~HasVar(p) THEN x.label = p
  ELSE Len(p) = 1 \/ Glob(p, x.prio) \/ (Truthy(x.label) /\ Glob(p, x.label))
Own(ctx, ext, p, int) ==
  \E i \in 1..Len(ctx.exts) : /\ Accepts(ctx.exts[i].pt, ext)
                              /\ PrioMatches(ctx.exts[i], p, int)
HasLabel(ctx, p) == \E i \in 1..Len(ctx.exts) : Truthy(ctx.exts[i].label) /\ ctx.exts[i].label = p
sI == S("i")
JumpVerdict(dp, j) ==
  LET ci == IF \E i \in 1..Len(dp.ctxs) : dp.ctxs[i].name = j.c
            THEN CHOOSE i \in 1..Len(dp.ctxs) : dp.ctxs[i].name = j.c ELSE 0
      word == ~j.int /\ ~HasVar(j.p)
      r == Reach(dp, {ci})
  IN IF HasVar(j.c) THEN (IF word /\ j.p \notin dp.labels THEN "E_DP_GOTO_NOLABEL" ELSE "ok")
     ELSE IF ci = 0 THEN "E_DP_GOTO_NOCONTEXT"
     ELSE IF HasVar(j.e)
     THEN (IF word /\ ~\E x \in r : HasLabel(dp.ctxs[x], j.p) THEN "E_DP_GOTO_CONTEXT_NOLABEL" ELSE "ok")
     ELSE IF \/ \E x \in r : Own(dp.ctxs[x], j.e, j.p, j.int)
             \/ j.int /\ j.e # sI /\ \E x \in r : Own(dp.ctxs[x], sI, <<49>>, TRUE)
     THEN "ok" ELSE "W_DP_GOTO_CONTEXT_NOEXTEN"
ResolveGoto ==
  /\ st.ph = "goto" /\ st.dp.jumps # <<>>
  /\ LET j == st.dp.jumps[1]
         v == JumpVerdict(st.dp, j)
         s1 == [st EXCEPT !.dp.jumps = Tail(@), !.k = st.k + 1]
     IN st' = If(v = "ok", s1, Msg(s1, v, j.f, j.l, Cat3(Plain(j.tab, j.c), Plain(j.tab, j.e), Plain(j.tab, j.p))))
  /\ UNCHANGED cs
EndOfGotos ==
  /\ st.ph = "goto" /\ st.dp.jumps = <<>>
  /\ st' = [st EXCEPT !.ph = "start", !.k = st.k + 1]
  /\ UNCHANGED cs
Finished == st.ph = "start" /\ st.run = Len(cs.runs)

Step == \/ StartRun \/ PopFile \/ ReadLineStep \/ TakePending \/ LastHeld
        \/ ApplyDirective \/ ApplyBad \/ ApplyBlank \/ ApplyHeader \/ ApplySetting
        \/ EndOfInput \/ ResolveGoto \/ EndOfGotos
=============================================================================
