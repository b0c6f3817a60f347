------------------------------- MODULE MC_Lint --------------------------------
(* All small inputs.  The environment writes the files while they are being
   read: at the end of what a file holds so far, it either gets one more line
   out of the alphabet of the scope, or it ends there.  Every finished run is
   checked against the properties as stated in Props, and printed, to be
   replayed on the real code.                                                 *)
EXTENDS Props, Json

CONSTANTS Scope,    \* which alphabet and files
          Total,    \* number of lines written, over all files
          Word      \* length of generated words
VARIABLES ended,    \* numbers of the files that have no more lines
          trail     \* the lines read, in order

T(str) == S(str) \o <<10>>
Ts(strs) == {T(strs[i]) : i \in 1..Len(strs)}
Words(chars, n) == UNION {[1..k -> chars] : k \in 0..n}
NL(U) == {u \o <<10>> : u \in U}
Wrap(a, U, b) == {S(a) \o u \o T(b) : u \in U}

Pieces(strs, n) == UNION {{Flat([i \in 1..k |-> S(strs[w[i]])]) : w \in [1..k -> 1..Len(strs)]} : k \in 0..n}

RECURSIVE Picks(_)
Picks(seqs) == IF seqs = <<>> THEN {<<>>}
               ELSE {x \o y : x \in {S(seqs[1][i]) : i \in 1..Len(seqs[1])}, y \in Picks(Tail(seqs))}
Tab == <<9>>
DirLines ==
  LET words == <<"include", "tryinclude", "exec", "inc", "#include">>
      seps == {<<>>, <<32>>, Tab, <<32, 32>>, <<32, 9>>, <<9, 9>>}
      args == {S(<<"", "a.conf", "\"a.conf\"", "<a.conf>", "\"a.conf", "a.conf\"", "<a.conf\"", "no.conf", "\"", "./a.conf">>[i]) : i \in 1..10}
  IN {l \o <<35>> \o S(words[i]) \o s \o a \o <<10>> : l \in {<<>>, <<32>>}, i \in 1..5, s \in seps, a \in args}

NoOdbc == <<>>
Base == [files |-> <<S("e.conf")>>, mode |-> <<"conf">>, per |-> 99, pre |-> <<<<>>>>, ver |-> "v13"]
DpPre == <<T("[general]"), T("[globals]"), T("[a]")>>
Dp == [Base EXCEPT !.mode = <<"dialplan">>, !.pre = <<DpPre>>]
Files3 == [Base EXCEPT !.files = <<S("e.conf"), S("a.conf"), S("s/b.conf")>>, !.pre = <<<<>>, <<>>, <<>>>>]
Files2 == [Base EXCEPT !.files = <<S("e.conf"), S("a.conf")>>, !.pre = <<<<>>, <<>>>>]

ScopeBase ==
  CASE Scope \in {"C01", "C06b"} -> Files3
    [] Scope \in {"C01d", "C20"} -> [Files2 EXCEPT !.mode = <<"dialplan">>]
    [] Scope \in {"C02", "C05", "C26"} -> Files2
    [] Scope \in {"C02b", "C03", "C26r", "C26w"} -> [Base EXCEPT !.mode = <<"reader">>]
    [] Scope = "C23" -> [Files2 EXCEPT !.mode = <<"dialplan">>, !.pre = <<DpPre, <<>>>>]
    [] Scope = "C06" -> [Files2 EXCEPT !.pre = <<<<T("[c]")>>, <<T("x=1")>>>>]
    [] Scope \in {"C04", "C03c"} -> [Base EXCEPT !.pre = <<<<T("[c]")>>>>]
    [] Scope = "C04d" -> Dp
    [] Scope = "C08" -> [Base EXCEPT !.mode = <<"dialplan">>]
    [] Scope \in {"C18", "C18o"} -> [Base EXCEPT !.mode = <<"odbc">>]
    [] Scope = "C18f" -> [Files2 EXCEPT !.mode = <<"odbc", "dialplan">>, !.pre = <<<<>>, DpPre \o <<
                             T("exten => 1,1,NoOp(${ODBC_A(x)})"), T("exten => 2,1,NoOp(${P_A(x)})"), T("exten => 3,1,NoOp(${odbc_b(x)})"),
                             T("exten => 4,1,NoOp(${ODBC_B(x)})")>>>>]
    [] Scope \in {"C04b"} -> Base
    [] Scope = "C13v" -> [Dp EXCEPT !.pre = <<DpPre \o <<T("exten => 1,1(aa),A"), T("exten => 1,2(ab.a),A"), T("exten => 1,n(0a),A"), T("exten => _1X,12,A"),
                                                        T("include => ab"), T("[ab]"), T("exten => 2,1(b),A"), T("[c]"), T("include => a")>>>>]
    [] OTHER -> Dp
Alpha ==
  CASE Scope = "C01" -> Ts(<<"[c]", "x=1", "oops", "#include a.conf", "#include s/b.conf", "#include ../a.conf", "">>)
    [] Scope = "C01d" -> Ts(<<"[c]", "exten => 1,1,Nosuch()", "oops", "#include a.conf", " same => n,Goto(z,1,1)", "[general]">>)
    [] Scope = "C02" -> {<<97,61,49,10>>, <<97,61,49,13,10>>, <<97,61,49>>, <<97,61,13>>, <<255,10>>, <<97,1,13,10>>, <<120,32,10>>,
                         <<9,13,10>>, T("#include a.conf"), S("#include a.conf") \o <<13,10>>, <<195,169,10>>, <<10>>, <<13,10>>}
    [] Scope = "C26w" -> NL(Words({34, 39, 40, 41, 59, 32, 97}, Word))
    [] Scope = "C26" -> Ts(<<"[c]", "a=\"x", " y;z\"", " e ; f", ";x", "", "[d]", "#include a.conf", " ", "b=(1;"  >>)
    [] Scope = "C26r" -> Ts(<<"a", " b", " b;c", ";d", "", "#e", " ;f", "(g;h", " ">>)
    [] Scope = "C26d" -> Ts(<<"[a]", "[b]", " [c]", "exten => 1,1,Goto(b,1,1)", "exten => 1,n(l),NoOp(", " a;b)", " ; c", "include => b", ";d",
                              "exten => 2,1,Goto(a,1,l)">>)
    [] Scope = "C02b" -> NL(Words({65, 128, 191, 194, 224, 160, 237, 240, 144, 244, 143}, Word))
    [] Scope = "C03" -> NL(Words({59, 92, 32, 9, 97}, Word))
    [] Scope = "C03c" -> Wrap("a=b", Words({59, 92, 32, 61, 97}, Word), "")
    [] Scope = "C04" -> NL(Words({91, 93, 61, 62, 32, 40, 33, 97, 35}, Word))
    [] Scope = "C04d" -> NL(Words({115, 61, 62, 32, 91, 93}, Word)) \cup Wrap("", {<<a, 115, 97, 109, 101>> : a \in {32, 9}}, " => n,NoOp")
    [] Scope = "C04b" -> Ts(<<"[c]", "[d](x)", " [c]", "a=1", "a => 1", " a = 1", "bad", "", ";x", "#foo", "[e">>)
    [] Scope = "C05" -> Ts(<<"", ";c", "v=1", "[c]", "#include a.conf", "oops">>)
    [] Scope = "C06" -> DirLines
    [] Scope = "C06b" -> Ts(<<"#include a.conf", "#tryinclude ./e.conf", "#include s/b.conf", "#include ../e.conf", "#include nope", "#tryinclude nope", "x=1">>)
    [] Scope = "C07" -> Ts(<<"exten => 1,1,A", "exten => 1,n,A", "exten => _1,n,A", " same => n,A", " same => 3,A", "exten => 1,3,A", "exten => _X,2(l),A",
                             "exten => 1,0,A", "[a]", "[b]", "exten => 1,x,A", "exten => 1,hint,A", "exten => ,1,A", "exten => _[,n,A", "exten => 1,1(">>)
    [] Scope = "C08" -> Ts(<<"[general]", "[globals]", "[a]", "[b]", "include => b", "include = c", "exten => 1,1,A", "v=1", "switch => x", "ignorepat => 9", "[b](t)">>)
    [] Scope = "C09" -> Ts(<<"exten => 1,1(l),A", "exten => _1,1,A", "exten => _[1],2(l),A", " same => n(l),A", " same => n,A", "exten => 1,2(m),A",
                             "exten => _[1-2]X,1(l),A", "exten => _[12]X,1,A", "exten => _[12]x,2(l),A", "[a]", "[b]">>)
    [] Scope = "C10" -> Ts(<<"exten => 1,1,A", "exten => 1,n(l),A()", "exten => 12,1,A", "exten => _X,1,A", "exten => _N,1,A", "exten => _Z.,1,A",
                             "exten => _.,1,A", "exten => _X!,1,A", "exten => _[13],1,A", "exten => _1X,1,A", "include => b", "[b]", "[a]">>)
    [] Scope = "C12" -> Wrap("exten => ", {x \in Words({95, 91, 93, 88, 49, 45, 46}, Word) : TRUE}, ",1,Goto(1)")
    [] Scope = "C13" -> Ts(<<"[b]", "[a]", "include => a", "include => b", "include => c", "exten => 1,1,Goto(b,1,1)", "exten => i,1,Goto(a,2,9)", "exten => _X.,1(l),Goto(l)",
                             "exten => 1,n,Goto(b,${X},l)", "exten => 1,n,Goto(${C},1,m)", "exten => 1,n(m),Goto(1,${P})", "exten => s,1,Gosub(c,s,1(x))", "exten => 1,1,Goto(x)", "[c]">>)
    [] Scope = "C13v" -> LET ws == Pieces(<<"a", "b", ".", "1", "${x}", "0">>, Word) IN
                         Wrap("exten => 1,3,Goto(a,1,", ws, ")") \cup Wrap("exten => 1,3,Goto(", ws, ",2,b)") \cup Wrap("exten => 1,3,Goto(c,", ws, ",1)")
    [] Scope = "C17" -> Ts(<<"exten => 1,1,NoOp(x)", "exten => 2,1,noop(x)", "exten => 3,1,Nosuch(x)", "exten => 4,1,nosuch(x)", "exten => 5,1,Background(x)",
                             "exten => 6,1,BackGround(x)", "exten => 7,1,background(x)", "exten => 8,1,NoOp(${LEN(x)})", "exten => 9,1,NoOp(${len(x)})",
                             "exten => 10,1,NoOp(${NOSUCH(x)})", "exten => 11,1,NoOp(${nosuch(x)})", "exten => 12,1,DIAL(x)", "exten => 13,1,Dial(x)">>)
    [] Scope = "C18" -> Ts(<<"[A]", "[b_]", "[C__D]", "prefix=P", "prefix=", "synopsis=x", "dsn=x", "read=SELECT 1", "readsql=SELECT 1\\;", "writesql => x", "writehandle=w", "foo=1">>)
    [] Scope \in {"C18o", "C18f"} -> Ts(<<"[A]", "[B]", "[b]", "prefix=P", "prefix=", "read=1", "dsn=x", "writesql=1", "insertsql=1">>) \cup {<<91, 0, 65, 93, 10>>, S("prefix=") \o <<0, 10>>}
    [] Scope = "C17m" -> Ts(<<"exten => 1,1,NoOp()", "exten => 2,1,noop(${LEN(x)})", "exten => 3,1,Nosuch(${NOSUCH(x)})", "exten => 4,1,Aaa(${len(x)})", "exten => 5,1,Dial(${NOSUCH(x)})",
                             "exten => 6,1,BackGround(${Aaa(x)})", "exten => 7,1,Background(${ENV(x)})", "exten => 8,1,Queue(${CUT(x)})", "exten => 9,1,VoiceMail(1)", "exten => 1,1,SayUnixTime(${SHELL(x)})", "[b]">>)
    [] Scope = "C23" -> Ts(<<"[abcd]", "[abcde]", "[ABCD]", "[ARG1]", "exten => 1,1(abcf),NoOp(${Abcd})", "exten => 2,1(ARG12),NoOp(${ARG2}${ARG2})", "exten => 3,1(abcd),NoOp(${xycd})",
                             "exten => 1,1(abcd),NoOp(${abcd})", "exten => 4,1,NoOp(${ABcd}${abc})", "exten => 5,1,NoOp(${ab}${ac})", "#include a.conf", "exten => 6,1(bcde),NoOp(${abcxyz})">>)
    [] Scope = "C20" -> Ts(<<"[a]", "exten => 1,1,NoOp(", "exten => _[,1,NoOp(${", "[", "=", "#include a.conf", "#include", " same => n,Set(=)", "exten => 1,1">>)
                        \cup {<<255, 0, 10>>, <<13>>}

Init ==
  /\ cs = [files |-> [i \in 1..Len(ScopeBase.files) |-> [name |-> ScopeBase.files[i], lines |-> ScopeBase.pre[i]]],
           runs |-> [i \in 1..Len(ScopeBase.mode) |-> [mode |-> ScopeBase.mode[i], root |-> ScopeBase.files[i]]],
           ver |-> ScopeBase.ver, odbc |-> NoOdbc, vg |-> Scope \in {"C26", "C26r", "C26w", "C26d"}]
  /\ st = St0(cs)
  \* in the scope of two parsers the second file is fixed; so is an included one that holds something
  /\ ended = {i \in 2..Len(ScopeBase.files) : ScopeBase.pre[i] # <<>>}
  /\ trail = <<>>

PreLines == FoldLeft(LAMBDA a, p: a + Len(p), 0, ScopeBase.pre)
Written == FoldLeft(LAMBDA a, f: a + Len(f.lines), 0, cs.files) - PreLines
Room == Written < Total
Here == Top(st).fi
Closed == Here \in ended \/ ~Room
Seen == Append(trail, <<Top(st).nm, Top(st).ln + 1>>)
WriteLine ==
  /\ st.ph = "read" /\ AtEnd(st) /\ ~Closed
  /\ \E x \in Alpha :
       /\ cs' = [cs EXCEPT !.files[Here].lines = Append(@, x)]
       /\ ended' = IF x[Len(x)] # 10 THEN ended \cup {Here} ELSE ended
       /\ st' = [ReadNext(st, x) EXCEPT !.k = st.k + 1]
       /\ trail' = Seen
EndFile ==
  /\ st.ph = "read" /\ AtEnd(st) /\ ~Closed
  /\ ended' = ended \cup {Here}
  /\ UNCHANGED <<cs, st, trail>>
Reread == ReadLineStep /\ trail' = Seen /\ UNCHANGED ended
Go == /\ \/ st.ph = "read" /\ AtEnd(st) /\ Closed /\ (PopFile \/ LastHeld \/ EndOfInput)
         \/ TakePending
         \/ StartRun
         \/ ApplyDirective \/ ApplyBad \/ ApplyBlank \/ ApplyHeader \/ ApplySetting
         \/ ResolveGoto \/ EndOfGotos
      /\ UNCHANGED <<ended, trail>>
Next == WriteLine \/ EndFile \/ Reread \/ Go
vars == <<cs, st, ended, trail>>
Spec == Init /\ [][Next]_vars /\ WF_vars(EndFile \/ Reread \/ Go)

(* ---------- what holds ---------- *)
InputOk == CaseOk(cs)
Single == Len(cs.runs) = 1
Done(P(_)) == Finished /\ Single => LET in == FlatInput IN P(in)
DoneOnce(P(_)) == Finished /\ Single => LET in == FlatInput IN Distinct(in) => P(in)
Inv01 == Done(LAMBDA in: /\ Attributed(in)
                         /\ trail = [j \in 1..Len(in) |-> <<in[j].f, in[j].l>>])
Inv02 == Done(C02Holds)
Inv03 == Done(C03Holds)
Inv04 == Done(C04Holds)
Inv05 == Done(C05Holds)
Inv06 == NeverTwiceOpen /\ Done(C06Holds)
Inv07 == DoneOnce(C07Holds)
Inv08 == DoneOnce(C08Holds)
Inv09 == DoneOnce(C09Holds)
Inv10 == Finished => C10Holds
Inv13 == DoneOnce(C13Holds)
Inv17 == DoneOnce(C17Holds)
Inv17m == DoneOnce(C17mHolds)
Inv18 == DoneOnce(C18Holds)
Inv23 == Done(C23Holds)
Inv26 == Done(C26Holds)
(* a line takes at most two steps and one more for each file, goto and run it starts *)
Bounded == st.k <= 2 + 3 * Len(trail) + 3 * Len(st.msgs) + Len(st.dp.jumps) + 3 * Len(cs.runs)
Inv20 == Bounded
(* there is always something to do until the run is finished *)
Busy == Finished \/ ENABLED Next
(* what was reported stays, and is only ever added to *)
OnlyAdded == [][IsPrefix(st.msgs, st'.msgs)]_vars
Ends == <>Finished

(* ---------- for the replay ---------- *)
CONSTANTS Classes, Outs
Prios(cc) == [i \in 1..Len(cc) |-> [j \in 1..Len(cc[i].exts) |->
                LET x == cc[i].exts[j] IN <<x.raw, x.prio, x.f, x.l>>]]
Members2(cc) == [i \in 1..Len(cc) |-> <<cc[i].name, cc[i].incs, [j \in 1..Len(cc[i].exts) |->
                LET x == cc[i].exts[j] IN <<x.f, x.l>>]>>]
OutOf(x) ==
  CASE x = "read" -> st.read
    [] x = "conf" -> st.conf
    [] x = "ctxs" -> ExpCtxs(st)
    [] x = "prios" -> Prios(ExpCtxs(st))
    [] x = "members" -> Members2(ExpCtxs(st))
    [] x = "general" -> <<st.dp.gsets, st.dp.vsets>>
    [] x = "show" -> <<ShowDp(st.dp, FALSE), ShowDp(st.dp, TRUE)>>
    [] x = "modules" -> <<ModulesShow(st), ModulesStatus(st)>>
    [] x = "idents" -> <<IdentScan([verbose |-> TRUE, distance |-> TRUE], st), IdentStatus([distance |-> TRUE], st)>>
    [] OTHER -> <<>>
Record == Finished =>
  PrintT("RUN " \o ToJson([files |-> [i \in 1..Len(cs.files) |-> cs.files[i].lines],
                           msgs |-> SelectSeq(st.msgs, LAMBDA m: m.c \in Classes \/ "*" \in Classes),
                           outs |-> [x \in Outs |-> OutOf(x)]]))
=============================================================================
