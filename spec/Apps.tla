-------------------------------- MODULE Apps ---------------------------------
(* Applications: finding the application of a dialplan line, splitting its
   arguments and checking them.  Results are [w, jumps]: the work record of
   VarFun and the goto destinations <<context, extension, priority>> found,
   with <<>> for a part that is left out.                                    *)
EXTENDS VarFun

(* Asterisk's __ast_app_separate_args. *)
SepStep(a, c, delim, remove) ==
  LET keep == [a EXCEPT !.cur = Append(a.cur, c)] IN
  IF c < 0 THEN keep
  ELSE IF a.skip THEN [keep EXCEPT !.skip = FALSE]
  ELSE IF c = 91 THEN [keep EXCEPT !.br = a.br + 1]
  ELSE IF c = 93 THEN [keep EXCEPT !.br = IF a.br > 0 THEN a.br - 1 ELSE 0]
  ELSE IF c = 40 THEN [keep EXCEPT !.pa = a.pa + 1]
  ELSE IF c = 41 THEN [keep EXCEPT !.pa = IF a.pa > 0 THEN a.pa - 1 ELSE 0]
  ELSE IF c = 34 THEN [(IF remove THEN a ELSE keep) EXCEPT !.q = ~a.q]
  ELSE IF c = 92 THEN [(IF remove THEN a ELSE keep) EXCEPT !.skip = TRUE]
  ELSE IF c = delim /\ a.br = 0 /\ a.pa = 0 /\ ~a.q
  THEN [a EXCEPT !.out = Append(a.out, a.cur), !.cur = <<>>]
  ELSE keep
SeparateArgs(toks, delim, remove) ==
  LET r == FoldLeft(LAMBDA a, c: SepStep(a, c, delim, remove),
                    [out |-> <<>>, cur |-> <<>>, br |-> 0, pa |-> 0, q |-> FALSE, skip |-> FALSE], toks)
  IN Append(r.out, r.cur)

AppInfo(env, lower) ==
  IF lower \in DOMAIN AppCat[env.ver] THEN AppCat[env.ver][lower]
  ELSE [n |-> S("Unknown"), m |-> "unknown", sp |-> "plain"]

sUnknown == S("Unknown")
sNoop == S("noop")
BgSpellings == {S("Background"), S("BackGround")}

FewMany(w, args, min, max) ==
  IF Len(args) < min \/ (min = 1 /\ Len(args) = 1 /\ args[1] = <<>>) THEN Say(w, "E_APP_ARG_FEW", <<>>)
  ELSE IF max > 0 /\ Len(args) > max THEN Say(w, "E_APP_ARG_MANY", <<>>)
  ELSE w
Pipe(w, args) == IF Len(args) = 1 /\ Has(args[1], 124) THEN Say(w, "E_APP_ARG_PIPEDELIM", <<>>) ELSE w
Options(w, args, i, allowed) ==
  IF Len(args) < i THEN w
  ELSE LET o == SelectSeq(args[i], LAMBDA c: c >= 0)
           bad == SelectSeq(o, LAMBDA c: c \notin allowed)
           w1 == IF bad # <<>> THEN Say(w, "E_APP_ARG_BADOPT", bad) ELSE w
       IN IF Cardinality(SeqSet(o)) < Len(o) THEN Say(w1, "E_APP_ARG_DUPEOPT", <<>>) ELSE w1

Balance(w, data) == IF Balanced(data) THEN w ELSE Say(w, "W_APP_BALANCE", Plain(w.tab, data))

PadJump(args) == IF Len(args) = 1 THEN <<<<>>, <<>>, args[1]>>
                 ELSE IF Len(args) = 2 THEN <<<<>>, args[1], args[2]>> ELSE args
(* A Gosub destination: the arguments in parentheses are dropped, a fourth
   part and more belong to the priority.                                     *)
GosubJump(w, args) ==
  LET a == PadJump(IF Len(args) <= 3 THEN args
                   ELSE <<args[1], args[2], Join(From(args, 3), <<44>>)>>)
      j == Idx(a[3], 40)
  IN IF j = 0 THEN [w |-> w, jump |-> a]
     ELSE [w |-> IF a[3][Len(a[3])] # 41 THEN Say(w, "W_APP_BALANCE", Plain(w.tab, a[3])) ELSE w,
           jump |-> <<a[1], a[2], SubSeq(a[3], 1, j - 1)>>]

(* <cond>?<iftrue>:<iffalse> : [w, branches] *)
IfParts(w, sp, data, constOk) ==
  LET args == SeparateArgs(data, 63, TRUE)
      modern == Len(args) >= 2
      old == SeparateArgs(data, 44, FALSE)
      w1 == IF modern THEN (IF Len(args) > 2 THEN Say(w, "E_APP_ARG_MANY", <<>>) ELSE w)
            ELSE IF Len(old) > 1
            THEN Say(w, "E_APP_ARG_IFSTYLE",
                     Join(<<S(sp), Plain(w.tab, data)>> \o [i \in 1..Len(old) |-> Plain(w.tab, old[i])], <<-1>>))
            ELSE Say(w, "E_APP_ARG_FEW", <<>>)
      cond0 == IF modern THEN args[1] ELSE old[1]
      acts == IF modern THEN SeparateArgs(args[2], 58, FALSE) ELSE <<>>
      cond == IF HasVar(cond0)
              THEN LET a == LeadN(cond0, IsWs) b == TrailN(cond0, IsWs)
                       c1 == IF b > 0 /\ cond0[Len(cond0) - b] < 0 THEN SubSeq(cond0, 1, Len(cond0) - b) ELSE cond0
                   IN IF a > 0 /\ cond0[a + 1] < 0 THEN From(c1, a + 1) ELSE c1
              ELSE Strip(cond0)
      w2 == IF cond = <<>> THEN Say(w1, "E_APP_ARG_IFEMPTY", <<>>)
            ELSE IF ~constOk /\ HasStr(cond) THEN Say(w1, "E_APP_ARG_IFCONST", Plain(w.tab, cond))
            ELSE w1
  IN [w |-> w2,
      br |-> SelectSeq(SubSeq(acts, 1, IF Len(acts) > 2 THEN 2 ELSE Len(acts)), LAMBDA x: x # <<>>)]

VoiceMailOpts == {98, 100, 103, 115, 117, 85, 80}
MilliwattOpts == {111}
sapp == S("app")
sexten == S("exten")

RECURSIVE AppLine(_, _), RunApp(_, _, _)
RunApp(w, sp, data) ==
  LET none(x) == [w |-> x, jumps |-> <<>>]
      commas == SeparateArgs(data, 44, FALSE)
  IN
  CASE sp \in {"plain", "Background"} -> none(Balance(w, data))
    [] sp = "Set" -> none(Balance(Assign(w, data), data))
    [] sp = "Goto" ->
         LET w1 == Pipe(FewMany(w, commas, 1, 3), commas) IN
         [w |-> w1, jumps |-> IF Len(commas) <= 3 THEN <<PadJump(commas)>> ELSE <<>>]
    [] sp = "Gosub" ->
         LET w1 == Pipe(FewMany(w, commas, 1, 3), commas)
             g == GosubJump(w1, commas)
         IN [w |-> g.w, jumps |-> <<g.jump>>]
    [] sp = "VoiceMail" -> none(Pipe(Options(FewMany(w, commas, 1, 2), commas, 2, VoiceMailOpts), commas))
    [] sp = "Milliwatt" -> none(Pipe(Options(FewMany(w, commas, 0, 1), commas, 1, MilliwattOpts), commas))
    [] sp = "Originate" ->
         LET w1 == FewMany(w, commas, 3, 6)
             w2 == IF Len(commas) >= 2 /\ commas[2] \notin {sapp, sexten}
                   THEN Say(w1, "E_APP_ARG_BADOPT", Plain(w.tab, commas[2])) ELSE w1
         IN none(Pipe(w2, commas))
    [] sp \in {"GotoIfTime", "ExecIfTime"} -> none(IfParts(w, sp, data, TRUE).w)
    [] sp = "GotoIf" ->
         LET p == IfParts(w, sp, data, FALSE) IN
         FoldLeft(LAMBDA a, b:
           LET args == SeparateArgs(b, 44, TRUE) IN
           IF Len(args) <= 3 THEN [a EXCEPT !.jumps = Append(a.jumps, PadJump(args))]
           ELSE [a EXCEPT !.w = Say(a.w, "E_APP_ARG_MANY", <<>>)],
           none(p.w), p.br)
    [] sp = "GosubIf" ->
         LET p == IfParts(w, sp, data, FALSE) IN
         FoldLeft(LAMBDA a, b:
           LET args == SeparateArgs(b, 44, TRUE)
               w1 == IF Len(args) > 3 THEN Say(a.w, "E_APP_ARG_MANY", <<>>) ELSE a.w
               g == GosubJump(w1, args)
           IN [w |-> g.w, jumps |-> Append(a.jumps, g.jump)],
           none(p.w), p.br)
    [] sp = "ExecIf" ->
         LET p == IfParts(w, sp, data, FALSE) IN
         FoldLeft(LAMBDA a, b:
           LET r == AppLine(a.w, b) IN [w |-> r.w, jumps |-> a.jumps \o r.jumps],
           none(p.w), p.br)

(* <app>(<data>) *)
AppLine(w, raw) ==
  LET j == Idx(raw, 40)
      name0 == IF j = 0 THEN raw ELSE SubSeq(raw, 1, j - 1)
      rest == IF j = 0 THEN <<40, 41>> ELSE From(raw, j)
      data == IF rest[Len(rest)] = 41 THEN SubSeq(rest, 2, Len(rest) - 1) ELSE rest
      w1 == IF j = 0 /\ Lower(name0) # sNoop THEN Say(w, "W_APP_NEED_PARENS", <<>>) ELSE w
      name == LStrip(name0)
      stop(x) == [w |-> x, jumps |-> <<>>]
  IN
  IF HasVar(name0) THEN stop(w)      \* a computed application: nothing can be checked
  ELSE IF name0 # <<>> /\ IsWs(name0[Len(name0)]) THEN stop(Say(w1, "E_APP_WSH", name0))
  ELSE IF name0 = <<>> THEN stop(Say(w1, "E_APP_MISSING", S("(none)")))
  ELSE
  LET w2 == IF Len(name) < Len(name0) THEN Say(w1, "W_APP_WSH", name0) ELSE w1
      low == Lower(name)
      info == AppInfo(w2.env, low)
      bg == IF info.sp = "Background" /\ w2.bg = <<>> /\ name \in BgSpellings THEN name ELSE w2.bg
      proper == IF info.sp = "Background" /\ bg # <<>> THEN bg ELSE info.n
      w3 == [w2 EXCEPT !.bg = bg, !.ua = Append(w2.ua, low)]
      w4 == IF proper = name THEN w3
            ELSE IF info.n = sUnknown THEN Say(w3, "E_APP_MISSING", name)
            ELSE Say(w3, "W_APP_BAD_CASE", name \o <<-1>> \o proper)
      pv == IF ~HasVar(data) /\ HasRef(data) THEN ParseVars(w4, data) ELSE [w |-> w4, toks |-> data]
      w5 == IF pv.w.err
            THEN [Say(pv.w, "E_APP_PARSE_ERROR", name \o <<-1>> \o data) EXCEPT !.err = FALSE]
            ELSE pv.w
  IN RunApp(w5, info.sp, IF pv.w.err THEN data ELSE pv.toks)
=============================================================================
