------------------------------- MODULE VarFun --------------------------------
(* Variables, slices, expressions and functions inside application data.
   A work record w is threaded through everything:
     ms    messages <<class, argument>>          vars  names counted, one per use
     tab   table of variables (token -k is tab[k])
     uf/ua lower-case names of functions/apps used
     bg    the spelling of BackGround chosen so far
     err   an unterminated reference was met
     env   [ver, odbc]: catalogue version and functions known from func_odbc  *)
EXTENDS Text, Catalogue

W0(env, bg) == [ms |-> <<>>, vars |-> <<>>, tab |-> <<>>, uf |-> <<>>, ua |-> <<>>,
                bg |-> bg, err |-> FALSE, env |-> env]
Say(w, c, a) == [w EXCEPT !.ms = Append(w.ms, <<c, a>>)]

Plain(tab, toks) ==
  IF ~HasVar(toks) THEN toks
  ELSE Flat([i \in 1..Len(toks) |-> IF toks[i] >= 0 THEN <<toks[i]>> ELSE tab[-toks[i]].txt])

(* Paired quotes, and brackets closed in order outside quotes. *)
BalanceStep(a, c) ==
  LET top == IF a.st = <<>> THEN 0 ELSE a.st[Len(a.st)]
      pop == [a EXCEPT !.st = SubSeq(a.st, 1, Len(a.st) - 1)]
      push == [a EXCEPT !.st = Append(a.st, c)]
      quoted == top = 34 \/ top = 39
  IN IF c < 0 \/ ~a.ok THEN a
     ELSE IF c = 34 \/ c = 39 THEN (IF top = c THEN pop ELSE IF quoted THEN a ELSE push)
     ELSE IF quoted THEN a
     ELSE IF c \in {40, 123, 91} THEN push
     ELSE IF c = 41 THEN (IF top = 40 THEN pop ELSE [a EXCEPT !.ok = FALSE])
     ELSE IF c = 125 THEN (IF top = 123 THEN pop ELSE [a EXCEPT !.ok = FALSE])
     ELSE IF c = 93 THEN (IF top = 91 THEN pop ELSE [a EXCEPT !.ok = FALSE])
     ELSE a
Balanced(toks) ==
  LET r == FoldLeft(BalanceStep, [st |-> <<>>, ok |-> TRUE], toks) IN r.ok /\ r.st = <<>>

(* ---- slices ---- *)
NoNum == [t |-> "none", neg |-> FALSE, dig |-> <<>>, v |-> <<>>]
BadNum == [NoNum EXCEPT !.t = "bad"]
Num(toks) ==
  IF HasVar(toks) THEN [NoNum EXCEPT !.t = "var", !.v = toks]
  ELSE LET neg == Len(toks) > 0 /\ toks[1] = 45
           d == IF neg THEN Tail(toks) ELSE toks
       IN IF Len(toks) > 31 \/ ~AllDigits(d) THEN BadNum
          ELSE LET n == NormDigits(d) IN [NoNum EXCEPT !.t = "int", !.neg = neg /\ n # <<48>>, !.dig = n]
IsZero(n) == n.t = "int" /\ n.dig = <<48>>
NumText(tab, n) == IF n.t = "var" THEN Plain(tab, n.v) ELSE (IF n.neg THEN <<45>> ELSE <<>>) \o n.dig

(* <name>:<start>[:<length>] *)
SplitSlice(w, toks) ==
  LET parts == SplitAll(toks, 58)
      n == Len(parts)
      okArgs == n \in {2, 3}
      w1 == IF okArgs THEN w ELSE Say(w, "E_VAR_SUBSTR_ARGS", <<>>)
      s0 == IF okArgs THEN Num(parts[2]) ELSE NoNum
      l0 == IF n = 3 /\ s0.t # "bad" THEN Num(parts[3]) ELSE NoNum
      w2 == IF s0.t = "bad" THEN Say(w1, "E_VAR_SUBSTR_START", <<>>) ELSE w1
      s1 == IF s0.t = "bad" THEN NoNum ELSE s0
      pointless == l0.t = "int" /\
                   (IsZero(l0) \/ (s1.t = "int" /\ s1.neg /\ ~l0.neg /\ DigitsGeq(l0.dig, s1.dig)))
      w3 == IF l0.t = "bad" \/ pointless THEN Say(w2, "E_VAR_SUBSTR_LENGTH", <<>>) ELSE w2
      l2 == IF l0.t = "bad" \/ pointless THEN NoNum ELSE l0
      s2 == IF l0.t = "bad" THEN NoNum ELSE s1
      whole == IsZero(s2) /\ l2.t = "none"
  IN [w |-> IF whole THEN Say(w3, "E_VAR_SUBSTR_START", <<>>) ELSE w3,
      name |-> parts[1], start |-> IF whole THEN NoNum ELSE s2, len |-> l2]

Entry(tab, k, name, start, len, open) ==
  [k |-> k, name |-> name, start |-> start, len |-> len,
   txt |-> open \o Plain(tab, name) \o
           (IF start.t = "none" THEN <<>>
            ELSE <<58>> \o NumText(tab, start) \o
                 (IF len.t = "none" THEN <<>> ELSE <<58>> \o NumText(tab, len)))
           \o (IF k = "expr" THEN <<93>> ELSE <<125>>)]
VarOpen == <<36, 123>>
ExprOpen == <<36, 91>>
Put(w, e) == [w |-> [w EXCEPT !.tab = Append(w.tab, e)], tok |-> -(Len(w.tab) + 1)]

Count(w, name) ==
  LET w1 == [w EXCEPT !.vars = Append(w.vars, name)]
  IN IF \A i \in 1..Len(name) : IsIdent(name[i]) THEN w1 ELSE Say(w1, "E_VAR_BAD_TOKENS", name)

(* ---- functions ---- *)
FuncInfo(env, lower) ==
  LET hit == {i \in 1..Len(env.odbc) : env.odbc[i].l = lower} IN
  IF hit # {} THEN [n |-> env.odbc[CHOOSE i \in hit : \A j \in hit : j <= i].n, m |-> "func_odbc", sp |-> "odbc"]
  ELSE IF lower \in DOMAIN FuncCat[env.ver]
  THEN LET f == FuncCat[env.ver][lower] IN [n |-> f.n, m |-> f.m, sp |-> f.sp]
  ELSE [n |-> S("UNKNOWN"), m |-> "unknown", sp |-> "plain"]

sUNKNOWN == S("UNKNOWN")
AudioArgs == {S("MixMonitor"), S("Chanspy"), S("Volume"), S("Speex"), S("pitch_shift"), S("JACK_HOOK"), S("Mute")}

RECURSIVE Assign(_, _), CallFunc(_, _, _)
(* Look up the function and check its arguments. *)
CallFunc(w, func, args) ==
  LET f == FuncInfo(w.env, Lower(func))
      w1 == [w EXCEPT !.uf = Append(w.uf, Lower(func))]
      w2 == IF f.n = func THEN w1
            ELSE IF f.n = sUNKNOWN THEN Say(w1, "E_FUNC_MISSING", func)
            ELSE Say(w1, "E_FUNC_BAD_CASE", func \o <<-1>> \o f.n)
      w3 == IF f.sp = "AUDIOHOOK_INHERIT" /\ ~HasVar(args) /\ args \notin AudioArgs
            THEN Say(w2, "E_FUNC_BAD_ARGS", <<>>)
            ELSE IF f.sp = "SET" THEN Assign(w2, args) ELSE w2
      w4 == IF Balanced(args) THEN w3 ELSE Say(w3, "W_FUNC_BALANCE", Plain(w.tab, args))
  IN IF f.sp \in {"INC", "DEC"} /\ ~HasVar(args) THEN Count(w4, args) ELSE w4

(* <dest>=<value>, as in Set() and SET(). *)
Assign(w, data) ==
  IF data = <<>> THEN Say(w, "E_ASSIGN_EMPTY", <<>>)
  ELSE LET p == Split1(data, 61) IN
       IF Len(p) = 1 THEN Say(w, "E_ASSIGN_NO_EQUALS", <<>>)
       ELSE LET dest == p[1]
                w1 == IF Has(dest, 32) THEN Say(w, "W_ASSIGN_SPACES", <<>>) ELSE w
            IN IF dest = <<>> \/ dest[Len(dest)] # 41 THEN w1
               ELSE LET j == Idx(dest, 40)
                        func == IF j = 0 THEN dest ELSE SubSeq(dest, 1, j - 1)
                        args == IF j = 0 THEN <<>> ELSE SubSeq(dest, j + 1, Len(dest) - 1)
                    IN IF HasVar(func) THEN Say(w1, "W_FUNC_DYNAMIC", <<>>)
                       ELSE CallFunc(w1, func, args)

(* ${<func>(<args>)<tail>} *)
ReadFunction(w, toks) ==
  LET i == Idx(toks, 40)
      func == SubSeq(toks, 1, i - 1)
      n == LastIdx(toks, 41)
      closed == n > i
      args == IF closed THEN SubSeq(toks, i + 1, n - 1) ELSE From(toks, i + 1)
      tail == IF closed THEN From(toks, n + 1) ELSE <<>>
      w1 == IF closed THEN w ELSE Say(w, "E_FUNC_PARENS", <<>>)
      sl == IF tail # <<>> THEN SplitSlice(w1, tail) ELSE [w |-> w1, name |-> <<>>, start |-> NoNum, len |-> NoNum]
      junk == sl.name # <<>>
      w2 == IF junk THEN Say(sl.w, "E_FUNC_TAIL", <<>>) ELSE sl.w
      start == IF junk THEN NoNum ELSE sl.start
      len == IF junk THEN NoNum ELSE sl.len
      w3 == IF HasVar(func) THEN Say(w2, "W_FUNC_DYNAMIC", <<>>) ELSE CallFunc(w2, func, args)
  IN Put(w3, Entry(w3.tab, "func", func \o <<40>> \o args \o <<41>>, start, len, VarOpen))

(* ---- references ---- *)
MakeVar(w, toks) ==
  IF Has(toks, 40) THEN ReadFunction(w, toks)
  ELSE IF Has(toks, 58)
  THEN LET sl == SplitSlice(w, toks)
           w1 == IF HasVar(sl.name) THEN sl.w ELSE Count(sl.w, sl.name)
           k == IF sl.start.t = "none" THEN "var"
                ELSE IF sl.start.t = "var" \/ sl.len.t = "var" THEN "dyn" ELSE "slice"
           len == IF sl.start.t = "none" THEN NoNum ELSE sl.len
       IN Put(w1, Entry(w1.tab, k, sl.name, sl.start, len, VarOpen))
  ELSE LET w1 == IF HasVar(toks) THEN w ELSE Count(w, toks)
       IN Put(w1, Entry(w1.tab, "var", toks, NoNum, NoNum, VarOpen))

(* The place of the bracket that closes the one before place i, or 0. *)
Closing(data, i, b, e) ==
  LET step(a, j) == IF a.d = 0 THEN a
                    ELSE IF data[j] = b THEN [a EXCEPT !.d = a.d + 1]
                    ELSE IF data[j] = e THEN [d |-> a.d - 1, at |-> j]
                    ELSE a
      r == FoldLeft(step, [d |-> 1, at |-> 0], [k \in 1..(Len(data) - i + 1) |-> i + k - 1])
  IN IF r.d = 0 THEN r.at ELSE 0
RefAt(data) ==
  IF \E j \in 1..(Len(data) - 1) : data[j] = 36 /\ data[j+1] \in {123, 91}
  THEN CHOOSE j \in 1..(Len(data) - 1) : /\ data[j] = 36 /\ data[j+1] \in {123, 91}
                                         /\ \A k \in 1..(j-1) : ~(data[k] = 36 /\ data[k+1] \in {123, 91})
  ELSE 0
RECURSIVE ParseVars(_, _)
(* Text to tokens: [w, toks]; w.err is set when a reference is not closed. *)
ParseVars(w, data) ==
  LET j == RefAt(data) IN
  IF j = 0 \/ w.err THEN [w |-> w, toks |-> data]
  ELSE LET var == data[j+1] = 123
           e == IF var THEN Closing(data, j + 2, 123, 125) ELSE Closing(data, j + 2, 91, 93)
       IN IF e = 0 THEN [w |-> [w EXCEPT !.err = TRUE], toks |-> data]
          ELSE LET inner == ParseVars(w, SubSeq(data, j + 2, e - 1))
               IN IF inner.w.err THEN [w |-> inner.w, toks |-> data]
                  ELSE LET v == IF var THEN MakeVar(inner.w, inner.toks)
                                ELSE Put(inner.w, Entry(inner.w.tab, "expr", inner.toks, NoNum, NoNum, ExprOpen))
                           rest == ParseVars(v.w, From(data, e + 1))
                       IN [w |-> rest.w, toks |-> SubSeq(data, 1, j - 1) \o <<v.tok>> \o rest.toks]

HasRef(data) == RefAt(data) # 0

(* ---- the value of a text in which only ${EXTEN} is known ---- *)
sEXTEN == S("EXTEN")
NumVal(n) == LET v == IF Len(n.dig) > 8 THEN 99999999 ELSE DigitsVal(n.dig) IN IF n.neg THEN -v ELSE v
PySlice(s, a, hasB, b) ==
  LET n == Len(s)
      clip(x) == IF x < 0 THEN (IF n + x < 0 THEN 0 ELSE n + x) ELSE IF x > n THEN n ELSE x
      lo == clip(a)
      hi == IF hasB THEN clip(b) ELSE n
  IN SubSeq(s, lo + 1, hi)
RECURSIVE Subst(_, _, _)
Subst(tab, toks, exten) ==
  FoldLeft(LAMBDA a, c:
    IF ~a.ok THEN a
    ELSE IF c >= 0 THEN [a EXCEPT !.t = Append(a.t, c)]
    ELSE LET en == tab[-c] IN
         IF en.k \notin {"var", "slice"} THEN [a EXCEPT !.ok = FALSE]
         ELSE LET nm == IF HasVar(en.name) THEN Subst(tab, en.name, exten) ELSE [ok |-> TRUE, t |-> en.name] IN
              IF ~nm.ok \/ nm.t # sEXTEN THEN [a EXCEPT !.ok = FALSE]
              ELSE IF en.k = "var" THEN [a EXCEPT !.t = a.t \o exten]
              ELSE LET st == NumVal(en.start) ln == NumVal(en.len)
                       hasLen == en.len.t = "int" /\ ~IsZero(en.len)
                       end == IF ln < 0 THEN ln ELSE st + ln
                   IN [a EXCEPT !.t = a.t \o PySlice(exten, st, hasLen, end)],
    [ok |-> TRUE, t |-> <<>>], toks)

(* Can the text, with anything at all for its variables, be equal to val?  A
   single variable on its own can be anything.                               *)
RECURSIVE Glob(_, _)
Glob(toks, val) ==
  IF toks = <<>> THEN val = <<>>
  ELSE IF toks[1] >= 0 THEN val # <<>> /\ val[1] = toks[1] /\ Glob(Tail(toks), Tail(val))
  ELSE \E k \in 0..Len(val) : Glob(Tail(toks), From(val, k + 1))
=============================================================================
