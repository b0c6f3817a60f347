------------------------------ MODULE Observe -------------------------------
(* What can be seen of a finished run from the outside: the dialplan, its
   dialplan-show text, the used applications and functions.                  *)
EXTENDS Lint

ExpCtxs(s) == [i \in 1..Len(s.dp.ctxs) |->
  [name |-> s.dp.ctxs[i].name, incs |-> s.dp.ctxs[i].incs,
   exts |-> [j \in 1..Len(s.dp.ctxs[i].exts) |->
              LET x == s.dp.ctxs[i].exts[j] IN
              [raw |-> x.raw, prio |-> x.prio, label |-> x.label, app |-> x.app, f |-> x.f, l |-> x.l]]]]

(* ---- dialplan-show ---- *)
PadTo(t, n) == t \o [i \in 1..(IF Len(t) < n THEN n - Len(t) ELSE 0) |-> 32]
sPbx == S(" [pbx_config]")
AppShown(a) == a \o (IF Has(a, 40) THEN <<>> ELSE <<40>>) \o (IF Has(a, 41) THEN <<>> ELSE <<41>>)
PrioApp(x) == PadTo(x.prio \o S(". ") \o AppShown(x.app), 45)
FirstLine(x) == S("  ") \o PadTo(S("'") \o x.raw \o S("' =>"), 17) \o S(" ") \o PrioApp(x) \o sPbx
NextLine(x) == S("     ") \o PadTo(IF Truthy(x.label) THEN <<91>> \o x.label \o <<93>> ELSE <<>>, 14)
               \o S(" ") \o PrioApp(x) \o sPbx
(* the lines of a context, by pattern in Asterisk order, then as accepted *)
ByPattern(exts) ==
  LET firsts == SelectSeq([i \in 1..Len(exts) |-> i],
                          LAMBDA i: \A j \in 1..(i-1) : ~PatEq(exts[j].pt, exts[i].pt))
      order == SortBy(firsts, LAMBDA a, b: PatLess(exts[a].pt, exts[b].pt))
  IN [i \in 1..Len(order) |-> SelectSeq(exts, LAMBDA x: PatEq(x.pt, exts[order[i]].pt))]
(* a name as Python shows it *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
QuotedChar(c, q) ==
  IF c = q \/ c = 92 THEN <<92, c>>
  ELSE IF c = 9 THEN <<92, 116>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>>
  ELSE IF c < 32 \/ c \in 127..160 \/ c = 173
  THEN <<92, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
  ELSE <<c>>
Quoted(name) ==
  LET q == IF Has(name, 39) /\ ~Has(name, 34) THEN 34 ELSE 39
  IN <<q>> \o Flat([i \in 1..Len(name) |-> QuotedChar(name[i], q)]) \o <<q>>
ShowCtx(ctx) ==
  LET groups == ByPattern(ctx.exts) IN
  <<S("[ Context ") \o Quoted(ctx.name) \o S(" created by 'pbx_config' ]")>>
  \o Flat([g \in 1..Len(groups) |->
        [i \in 1..Len(groups[g]) |-> IF i = 1 THEN FirstLine(groups[g][i]) ELSE NextLine(groups[g][i])]])
  \o [i \in 1..Len(ctx.incs) |->
        S("  ") \o PadTo(S("Include =>"), 17) \o S(" ") \o PadTo(S("'") \o ctx.incs[i] \o S("'"), 45) \o sPbx]
  \o <<<<>>>>
ShowDp(dp, rev) ==
  LET n == Len(dp.ctxs) IN
  IF n = 0 THEN <<<<>>>>
  ELSE Flat([i \in 1..n |-> ShowCtx(dp.ctxs[IF rev THEN n + 1 - i ELSE i])])

UsedApps(s) == {<<AppInfo([ver |-> cs.ver], s.ua[i]).n, AppInfo([ver |-> cs.ver], s.ua[i]).m>> : i \in 1..Len(s.ua)}
UsedFuncs(s) == {<<FuncInfo([ver |-> cs.ver, odbc |-> s.reg], s.uf[i]).n,
                   FuncInfo([ver |-> cs.ver, odbc |-> s.reg], s.uf[i]).m>> : i \in 1..Len(s.uf)}
=============================================================================
