------------------------------ MODULE Commands -------------------------------
(* The commands of the program on top of the linter.  An invocation o is
     cmd     "dialplan-check" "dialplan-show" "modules-show" "ident-scan"
             "func_odbc-check"
     path    the file argument (code points)
     odbc    [k |-> "auto"] or [k |-> "off"] or [k |-> "path", p |-> path]
     reverse, verbose, distance   flags; distance: the editdistance package is
                                  installed
     ignore  the value of ALINT_IGNORE (code points, empty if absent)        *)
EXTENDS Observe

sFuncOdbcConf == S("func_odbc.conf")
OdbcFile(c, o) ==
  IF o.odbc.k = "off" THEN <<>>
  ELSE IF o.odbc.k = "path" THEN o.odbc.p
  ELSE LET p == PathJoin(DirName(o.path), sFuncOdbcConf) IN IF FileNo(c, p) = 0 THEN <<>> ELSE p
(* the parsers that the command runs *)
RunsOf(c, o) ==
  IF o.cmd = "func_odbc-check" THEN <<[mode |-> "odbc", root |-> o.path]>>
  ELSE LET d == <<[mode |-> "dialplan", root |-> o.path]>> IN
       IF o.cmd \in {"dialplan-check", "modules-show"} /\ OdbcFile(c, o) # <<>>
       THEN <<[mode |-> "odbc", root |-> OdbcFile(c, o)]>> \o d ELSE d

(* ---- findings ---- *)
Ignores(ignore, class) ==
  LET cl == S(class) parts == SplitAll(ignore, 44) IN
  \E i \in 1..Len(parts) : LET e == parts[i] IN
    e # <<>> /\ (e = cl \/ (e[Len(e)] = 95 /\ StartsWith(cl, e)))
Reports(o) == o.cmd \in {"dialplan-check", "func_odbc-check"}
(* what each line on stderr starts with *)
Printed(o, s) ==
  IF ~Reports(o) THEN <<>>
  ELSE LET ms == SelectSeq(s.msgs, LAMBDA m: ~Ignores(o.ignore, m.c)) IN
       [i \in 1..Len(ms) |-> ms[i].f \o S(":") \o NatDigits(ms[i].l) \o S(" ") \o S(ms[i].c) \o S(": ")]

(* ---- modules-show ---- *)
sUnknownMod == "unknown"
SeqToText(t) == Show(t)
AppNameOf(s, low) ==
  LET info == AppInfo([ver |-> cs.ver], low) IN IF info.sp = "Background" /\ s.bg # <<>> THEN s.bg ELSE info.n
(* entries [low, n, m] of the used applications and functions *)
UsedA(s) == LET lows == SortedTexts({s.ua[i] : i \in 1..Len(s.ua)}) IN
  [i \in 1..Len(lows) |-> [n |-> AppNameOf(s, lows[i]), m |-> AppInfo([ver |-> cs.ver], lows[i]).m]]
UsedF(s) == LET lows == SortedTexts({s.uf[i] : i \in 1..Len(s.uf)})
                env == [ver |-> cs.ver, odbc |-> s.reg]
            IN [i \in 1..Len(lows) |-> [n |-> FuncInfo(env, lows[i]).n, m |-> FuncInfo(env, lows[i]).m]]
ModsOf(used) == SortedTexts({S(used[i].m) : i \in 1..Len(used)} \ {S(sUnknownMod)})
(* names one after another, in lines of at most 52 characters *)
Wrapped(names) ==
  FoldLeft(LAMBDA a, n:
    LET lastl == a[Len(a)]
        pre == IF lastl = <<>> THEN <<>> ELSE lastl \o S(", ")
        item == n \o S("()")
    IN IF Len(pre) + Len(item) > 52
       THEN Append([a EXCEPT ![Len(a)] = pre], item)
       ELSE [a EXCEPT ![Len(a)] = pre \o item],
    <<<<>>>>, names)
ModBlock(what, used) ==
  LET mods == ModsOf(used) IN
  <<S("; ") \o what \o S(" providing modules used:")>>
  \o Flat([i \in 1..Len(mods) |->
       LET mine == SelectSeq(used, LAMBDA u: S(u.m) = mods[i])
           ls == Wrapped([j \in 1..Len(mine) |-> mine[j].n])
       IN [j \in 1..Len(ls) |->
             S(";   ") \o PadTo(IF j = 1 THEN mods[i] ELSE <<>>, 20) \o S("  ") \o Strip(ls[j])]])
  \o <<S(";")>>
LoadLines(s) ==
  LET all == SortedTexts((SeqSet(ModsOf(UsedA(s))) \cup SeqSet(ModsOf(UsedF(s)))) \ {S("<builtin>")}) IN
  <<S("; modules.conf")>> \o [i \in 1..Len(all) |-> S("load => ") \o all[i] \o S(".so")] \o <<<<>>>>
ArgsOf(s, class) == SortedTexts({s.msgs[i].a : i \in {i \in 1..Len(s.msgs) : s.msgs[i].c = class}})
UnknownBlock(what, names) ==
  IF names = <<>> THEN <<>>
  ELSE <<S("; WARNING: The following unknown ") \o what \o S(" were seen:"),
         S(";   ") \o Join(names, S(", ")), S(";")>>
ModulesShow(s) ==
  ModBlock(S("Application"), UsedA(s)) \o ModBlock(S("Function"), UsedF(s)) \o LoadLines(s)
  \o UnknownBlock(S("applications"), ArgsOf(s, "E_APP_MISSING"))
  \o UnknownBlock(S("functions"), ArgsOf(s, "E_FUNC_MISSING"))
ModulesStatus(s) == IF \E i \in 1..Len(s.msgs) : s.msgs[i].c \in {"E_APP_MISSING", "E_FUNC_MISSING"} THEN 1 ELSE 0

(* ---- ident-scan ---- *)
LowThen(a, b) == SeqLess(Lower(a), Lower(b)) \/ (Lower(a) = Lower(b) /\ SeqLess(a, b))
LenThen(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LowThen(a, b))
CtxNames(s) == SortBy([i \in 1..Len(s.dp.ctxs) |-> s.dp.ctxs[i].name],
                      LAMBDA a, b: SeqLess(Lower(a), Lower(b)))
Labels(s) == SortBy(SetToSeq(s.dp.labels), LowThen)
VarNames(s) == SortBy(SetToSeq({s.vars[i].n : i \in 1..Len(s.vars)}), LowThen)
VarLine(s, n) ==
  LET uses == {i \in 1..Len(s.vars) : s.vars[i].n = n} IN
  S("  ") \o PadTo(n, 32) \o S("  [") \o NatDigits(Cardinality(uses)) \o S(" times in ")
  \o NatDigits(Cardinality({s.vars[i].f : i \in uses})) \o S(" files]")
Listing(s) ==
  LET c == CtxNames(s) l == Labels(s) v == VarNames(s) IN
  <<S("Contexts encountered:")>> \o [i \in 1..Len(c) |-> S("  ") \o c[i]] \o <<<<>>>>
  \o <<S("Labels encountered:")>> \o [i \in 1..Len(l) |-> S("  ") \o l[i]] \o <<<<>>>>
  \o <<S("Variables encountered:")>> \o [i \in 1..Len(v) |-> VarLine(s, v[i])] \o <<<<>>>>

(* edit distance, a row at a time *)
Min3(a, b, c) == LET m == IF a < b THEN a ELSE b IN IF m < c THEN m ELSE c
EditRow(row, a, x, b) ==
  FoldLeft(LAMBDA new, j: Append(new, Min3(row[j] + (IF x = b[j] THEN 0 ELSE 1), row[j + 1] + 1, new[j] + 1)),
           <<row[1] + 1>>, [j \in 1..Len(b) |-> j])
Edits(a, b) ==
  FoldLeft(LAMBDA row, x: EditRow(row, a, x, b), [j \in 1..(Len(b) + 1) |-> j - 1], a)[Len(b) + 1]
AllUp(t) == (\E i \in 1..Len(t) : IsUpper(t[i])) /\ ~\E i \in 1..Len(t) : IsLower(t[i])
AllLow(t) == (\E i \in 1..Len(t) : IsLower(t[i])) /\ ~\E i \in 1..Len(t) : IsUpper(t[i])
IsArg(t) == StartsWith(t, S("ARG")) /\ AllDigits(From(t, 4))
Alike(a, b) ==
  LET d == Edits(Lower(a), Lower(b)) IN
  /\ ~(d = 0 /\ ((AllUp(a) /\ AllLow(b)) \/ (AllLow(a) /\ AllUp(b))))
  /\ ~(IsArg(a) /\ IsArg(b))
  /\ d <= 2 /\ d + 1 < Len(a) /\ d + 1 < Len(b)
Idents(s) == SeqSet(CtxNames(s)) \cup s.dp.labels \cup {s.vars[i].n : i \in 1..Len(s.vars)}
(* pairs of neighbours *)
Neighbours(sorted) == {{sorted[i], sorted[i + 1]} : i \in 1..(Len(sorted) - 1)}
AlikePairs(ids) ==
  LET q == SetToSeq(ids) IN
  {p \in Neighbours(SortBy(q, LowThen)) \cup Neighbours(SortBy(q, LenThen)) :
     LET a == CHOOSE x \in p : TRUE b == CHOOSE x \in p : x # a IN Alike(a, b)}
Similar(s) ==
  LET pairs == AlikePairs(Idents(s))
      names == SortBy(SetToSeq(UNION pairs), LowThen)
  IN IF pairs = {} THEN <<>>
     ELSE <<S("Identifiers with similar names include:")>>
          \o [i \in 1..Len(names) |->
                S("  ") \o PadTo(names[i], 32) \o S("  [similar to: ")
                \o Join(SortedTexts({x \in UNION {p \in pairs : names[i] \in p} : x # names[i]}), S(", ")) \o S("]")]
          \o <<<<>>>>
IdentScan(o, s) == (IF o.verbose THEN Listing(s) ELSE <<>>) \o (IF o.distance THEN Similar(s) ELSE <<>>)
IdentStatus(o, s) == IF o.distance /\ AlikePairs(Idents(s)) # {} THEN 1 ELSE 0

(* ---- what a command shows ---- *)
Stdout(o, s) ==
  CASE o.cmd = "dialplan-show" -> ShowDp(s.dp, o.reverse)
    [] o.cmd = "modules-show" -> ModulesShow(s)
    [] o.cmd = "ident-scan" -> IdentScan(o, s)
    [] OTHER -> <<>>
Status(o, s) ==
  CASE Reports(o) -> IF Printed(o, s) # <<>> THEN 1 ELSE 0
    [] o.cmd = "modules-show" -> ModulesStatus(s)
    [] o.cmd = "ident-scan" -> IdentStatus(o, s)
    [] OTHER -> 0
=============================================================================
