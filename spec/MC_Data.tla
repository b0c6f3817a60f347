------------------------------- MODULE MC_Data --------------------------------
(* Every small application data string, one piece at a time: the argument
   split (C14), the branches of conditional applications (C15), variable
   references (C16) and balance (C25), each defined a second time without the
   state that the splitters and parsers carry along.  Every string is printed
   with what the specification says about it, to be replayed.                 *)
EXTENDS Apps, Json

CONSTANTS Scope, Size, Version
VARIABLES txt, n

Pieces ==
  CASE Scope = "split"   -> {<<44>>, <<40>>, <<41>>, <<91>>, <<93>>, <<34>>, <<92>>, <<97>>, S("${V}"), <<63>>, <<58>>}
    [] Scope = "cond"    -> {<<63>>, <<58>>, <<44>>, <<40>>, <<41>>, <<91>>, <<34>>, <<92>>, <<97>>, <<32>>, S("${V}"), S("$[1]")}
    [] Scope = "vars"    -> {S("${"), <<125>>, S("$["), <<93>>, <<97>>, <<58>>, <<40>>, <<41>>, <<49>>, <<45>>, <<36>>, <<123>>, S("}${b"), S("${b}")}
    [] Scope = "funcs"   -> {S("${LEN("), S("${len("), S("${SET("), S("${a"), S(")}"), <<125>>, <<41>>, <<61>>, S(":1"), S("INC(x"), <<97>>, S("$[")}
    [] Scope = "tails"   -> {S(":1"), <<58>>, <<98>>, S("${b}"), <<125>>, <<48>>, S(":-2")}
    [] Scope = "balance" -> {<<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<34>>, <<39>>, <<97>>, S("${V}")}

Env == [ver |-> Version, odbc |-> <<>>]
Parsed == ParseVars(W0(Env, <<>>), txt)
Toks(p) == IF p.w.err THEN txt ELSE p.toks

(* ---------- the split, by position ---------- *)
RECURSIVE Escaped(_, _)
(* the last character before i that is no variable is a backslash that counts *)
Escaped(s, i) ==
  LET p == {k \in 1..(i-1) : s[k] >= 0} IN
  p # {} /\ LET k == CHOOSE k \in p : \A x \in p : x <= k IN s[k] = 92 /\ ~Escaped(s, k)
Plainly(s, i, c) == s[i] = c /\ ~Escaped(s, i)
(* open ones before i that are not closed before i; closing more than was opened does not count *)
Depth(s, i, b, e) ==
  LET net(k) == Cardinality({x \in k..(i-1) : Plainly(s, x, b)}) - Cardinality({x \in k..(i-1) : Plainly(s, x, e)})
  IN LET all == {net(k) : k \in 1..i} IN CHOOSE v \in all : \A x \in all : x <= v
InQuotes(s, i) == Cardinality({k \in 1..(i-1) : Plainly(s, k, 34)}) % 2 = 1
Cuts(s, d) ==
  SelectSeq([i \in 1..Len(s) |-> i],
            LAMBDA i: Plainly(s, i, d) /\ ~InQuotes(s, i) /\ Depth(s, i, 91, 93) = 0 /\ Depth(s, i, 40, 41) = 0)
Between(s, cuts) ==
  LET c == <<0>> \o cuts \o <<Len(s) + 1>>
  IN [i \in 1..(Len(c) - 1) |-> [from |-> c[i] + 1, to |-> c[i+1] - 1]]
RawPart(s, p) == SubSeq(s, p.from, p.to)
CleanPart(s, p) ==
  LET keep == SelectSeq([i \in 1..(p.to + 1 - p.from) |-> p.from + i - 1],
                        LAMBDA i: Escaped(s, i) \/ s[i] < 0 \/ s[i] \notin {34, 92})
  IN [i \in 1..Len(keep) |-> s[keep[i]]]
Delims == {44, 63, 58}
SplitRight ==
  LET s == Toks(Parsed) IN
  \A d \in Delims :
    LET parts == Between(s, Cuts(s, d))
        raw == SeparateArgs(s, d, FALSE)
        clean == SeparateArgs(s, d, TRUE)
    IN /\ raw = [i \in 1..Len(parts) |-> RawPart(s, parts[i])]
       /\ clean = [i \in 1..Len(parts) |-> CleanPart(s, parts[i])]
       /\ Join(raw, <<d>>) = s

(* ---------- balance, by derivation ---------- *)
CloserOf(c) == CASE c = 40 -> 41 [] c = 91 -> 93 [] c = 123 -> 125
RECURSIVE Derives(_)
Derives(s) ==
  IF s = <<>> THEN TRUE
  ELSE LET c == s[1] IN
       IF c \in {34, 39}
       THEN \E j \in 2..Len(s) : s[j] = c /\ (\A k \in 2..(j-1) : s[k] # c) /\ Derives(From(s, j + 1))
       ELSE IF c \in {40, 91, 123}
       THEN \E j \in 2..Len(s) : s[j] = CloserOf(c) /\ Derives(SubSeq(s, 2, j - 1)) /\ Derives(From(s, j + 1))
       ELSE c \notin {41, 93, 125} /\ Derives(Tail(s))
BalanceRight == LET s == Toks(Parsed) IN Balanced(s) <=> Derives(s)

(* ---------- references, by bracket counting ---------- *)
OpenAt(s, i) == i < Len(s) /\ s[i] = 36 /\ s[i+1] \in {123, 91}
(* the bracket that closes the one at i+1: the first place where as many were closed as opened *)
CloseOf(s, i) ==
  LET b == s[i+1] e == IF b = 123 THEN 125 ELSE 93
      c(x, j) == Cardinality({k \in (i+1)..j : s[k] = x})
      js == {j \in (i+2)..Len(s) : c(b, j) = c(e, j)}
  IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A x \in js : j <= x
(* the references at the top level, from left to right *)
RECURSIVE TopFrom(_, _)
TopFrom(s, i) ==
  LET js == {j \in i..Len(s) : OpenAt(s, j)} IN
  IF js = {} THEN <<>>
  ELSE LET j == CHOOSE j \in js : \A x \in js : j <= x
           e == CloseOf(s, j)
       IN <<[at |-> j, to |-> e]>> \o (IF e = 0 THEN <<>> ELSE TopFrom(s, e + 1))
RECURSIVE Closable(_)
Closable(s) == LET t == TopFrom(s, 1) IN \A i \in 1..Len(t) : t[i].to # 0 /\ Closable(SubSeq(s, t[i].at + 2, t[i].to - 1))
Repaired == {"E_VAR_SUBSTR_ARGS", "E_VAR_SUBSTR_START", "E_VAR_SUBSTR_LENGTH", "E_FUNC_PARENS", "E_FUNC_TAIL"}
VarsRight ==
  LET p == Parsed
      w == p.w
      top == TopFrom(txt, 1)
      fixed == \E i \in 1..Len(w.ms) : w.ms[i][1] \in Repaired
      plain == SelectSeq(w.tab, LAMBDA e: e.k \in {"var", "dyn", "slice"} /\ ~HasVar(e.name))
      counted == SelectSeq(w.vars, LAMBDA v: \E i \in 1..Len(plain) : plain[i].name = v)
  IN /\ w.err <=> ~Closable(txt)
     /\ ~w.err =>
          /\ ~fixed => Plain(w.tab, p.toks) = txt
          \* the literal text around the references stays
          /\ Cardinality({i \in 1..Len(p.toks) : p.toks[i] < 0}) = Len(top)
          /\ SelectSeq(p.toks, LAMBDA c: c >= 0)
             = LET lit == SelectSeq([i \in 1..Len(txt) |-> i], LAMBDA i: ~\E k \in 1..Len(top) : i \in top[k].at..top[k].to)
               IN [i \in 1..Len(lit) |-> txt[lit[i]]]
          \* each plain variable once
          /\ \A i \in 1..Len(plain) : CountOf(w.vars, plain[i].name) >= Cardinality({k \in 1..Len(plain) : plain[k].name = plain[i].name})
          /\ Len(w.vars) = Len(plain) + Cardinality({i \in 1..Len(w.uf) : w.uf[i] \in {S("inc"), S("dec")}})
             \/ \E i \in 1..Len(w.uf) : w.uf[i] \in {S("inc"), S("dec")}
     \* every name that is not one is reported
     /\ Cardinality({i \in 1..Len(w.ms) : w.ms[i][1] = "E_VAR_BAD_TOKENS"})
        = Cardinality({i \in 1..Len(w.vars) : \E k \in 1..Len(w.vars[i]) : ~IsIdent(w.vars[i][k])})

(* ---------- conditions, by position ---------- *)
Conds == <<"GotoIf", "GosubIf", "ExecIf", "GotoIfTime", "ExecIfTime">>
CondRight ==
  LET p == Parsed
      s == Toks(p)
      marks == Cuts(s, 63)
      cond == CleanPart(s, [from |-> 1, to |-> (IF marks = <<>> THEN Len(s) + 1 ELSE marks[1]) - 1])
      raw == RawPart(s, Between(s, Cuts(s, 44))[1])
      c == IF marks = <<>> THEN raw ELSE cond
      solid == SelectSeq(c, LAMBDA x: x >= 0 /\ ~IsWs(x))
      vars == SelectSeq(c, LAMBDA x: x < 0)
      (* white space counts as text when it is between other things *)
      lead == \E i \in 1..Len(c) : IsWs(c[i]) /\ \E a \in 1..(i-1) : ~IsWs(c[a]) /\ \E b \in (i+1)..Len(c) : ~IsWs(c[b])
      has(ms, x) == \E i \in 1..Len(ms) : ms[i][1] = x
  IN \A k \in 1..5 :
       LET w == [p.w EXCEPT !.ms = <<>>, !.err = FALSE]
           r == IfParts(w, Conds[k], s, k > 3)
           ms == r.w.ms
       IN /\ has(ms, "E_APP_ARG_MANY") <=> Len(marks) > 1
          /\ has(ms, "E_APP_ARG_IFSTYLE") <=> marks = <<>> /\ Cuts(s, 44) # <<>>
          /\ has(ms, "E_APP_ARG_FEW") <=> marks = <<>> /\ Cuts(s, 44) = <<>>
          /\ has(ms, "E_APP_ARG_IFEMPTY") <=> solid = <<>> /\ vars = <<>>
          /\ has(ms, "E_APP_ARG_IFCONST") <=> k <= 3 /\ (solid # <<>> \/ lead)
          /\ Len(ms) <= 2
          \* branches: at most two, none empty, and only after a question mark
          /\ Len(r.br) <= 2 /\ (marks = <<>> => r.br = <<>>)
          /\ \A i \in 1..Len(r.br) : r.br[i] # <<>>
          /\ marks # <<>> =>
               LET second == CleanPart(s, Between(s, marks)[2])
                   parts == Between(second, Cuts(second, 58))
                   given == SelectSeq([i \in 1..(IF Len(parts) > 2 THEN 2 ELSE Len(parts)) |-> RawPart(second, parts[i])], LAMBDA x: x # <<>>)
               IN r.br = given

InvData ==
  CASE Scope = "split" -> SplitRight
    [] Scope = "cond" -> CondRight /\ SplitRight
    [] Scope \in {"vars", "funcs", "tails"} -> VarsRight
    [] Scope = "balance" -> BalanceRight

(* ---------- for the replay ---------- *)
(* as the runner shows them: runs of text, and variables *)
Shown(tab, toks) ==
  FoldLeft(LAMBDA a, c:
      IF c < 0 THEN Append(a, <<1, tab[-c].txt>>)
      ELSE IF a # <<>> /\ a[Len(a)][1] = 0 THEN [a EXCEPT ![Len(a)][2] = Append(@, c)]
      ELSE Append(a, <<0, <<c>>>>), <<>>, toks)
LineFor(app) == S(app) \o <<40>> \o txt \o <<41>>
AppResult(app) ==
  LET r == AppLine(W0(Env, <<>>), LineFor(app))
  IN [line |-> LineFor(app), ms |-> r.w.ms, vars |-> r.w.vars,
      jumps |-> [i \in 1..Len(r.jumps) |-> [k \in 1..3 |-> Plain(r.w.tab, r.jumps[i][k])]]]
AppsOf ==
  CASE Scope = "split"   -> <<"VoiceMail", "Goto", "Originate", "Milliwatt">>
    [] Scope = "cond"    -> Conds
    [] Scope \in {"vars", "funcs", "tails"} -> <<"NoOp">>
    [] Scope = "balance" -> <<"Verbose", "Set">>
Record ==
  LET p == Parsed
      s == Toks(p)
      parts(d, rm) == LET a == SeparateArgs(s, d, rm) IN [i \in 1..Len(a) |-> Shown(p.w.tab, a[i])]
      base == [txt |-> txt, err |-> p.w.err, apps |-> [k \in 1..Len(AppsOf) |-> AppResult(AppsOf[k])]]
  IN CASE Scope = "split" -> base @@ [parts |-> <<parts(44, FALSE), parts(44, TRUE), parts(63, TRUE), parts(58, FALSE)>>]
       [] Scope \in {"vars", "funcs", "tails"} -> base @@ [text |-> Plain(p.w.tab, p.toks), toks |-> Shown(p.w.tab, p.toks), ms |-> p.w.ms, vars |-> p.w.vars]
       [] OTHER -> base
Printed == PrintT("DATA " \o ToJson(Record))

(* what comes after a name or a call is looked at in a scope of its own *)
Starts == IF Scope = "tails" THEN {S("${LEN(a)"), S("${v"), S("${${v}")} ELSE {<<>>}
Init == txt \in Starts /\ n = 0
Next == n < Size /\ \E p \in Pieces : txt' = txt \o p /\ n' = n + 1
=============================================================================
