-------------------------------- MODULE Conf --------------------------------
(* One physical line: decoding checks, comment split, classification, and the
   preprocessor directives.  Messages are pairs <<class, argument>>; the line
   they belong to is added by the caller.                                    *)
EXTENDS Text

IsCtrl(c) == c \in 0..31 /\ c # 9 /\ c # 10 /\ c # 13
(* bytes of a physical line, with its terminator *)
RawLine(bs) ==
  LET d == DecodeLine(bs)
      lf == Len(bs) > 0 /\ bs[Len(bs)] = 10
      crlf == lf /\ Len(bs) > 1 /\ bs[Len(bs) - 1] = 13
      n == Len(d.out) - (IF crlf THEN 2 ELSE IF lf THEN 1 ELSE 0)
  IN [bad |-> d.bad, ctrl |-> \E i \in 1..Len(d.out) : IsCtrl(d.out[i]),
      lf |-> lf, crlf |-> crlf, body |-> SubSeq(d.out, 1, n)]

(* The comment starts at the first semicolon without a backslash right before it. *)
CommentAt(s) ==
  IF \E j \in 1..Len(s) : s[j] = 59 /\ (j = 1 \/ s[j-1] # 92)
  THEN CHOOSE j \in 1..Len(s) : /\ s[j] = 59 /\ (j = 1 \/ s[j-1] # 92)
                                /\ \A k \in 1..(j-1) : ~(s[k] = 59 /\ (k = 1 \/ s[k-1] # 92))
  ELSE 0
Unescape(s) ==
  LET keep == {i \in 1..Len(s) : ~(s[i] = 92 /\ i < Len(s) /\ s[i+1] = 59)}
  IN IF Cardinality(keep) = Len(s) THEN s
     ELSE FoldLeft(LAMBDA a, i: IF i \in keep THEN Append(a, s[i]) ELSE a, <<>>, [i \in 1..Len(s) |-> i])
CommentSplit(s) ==
  LET j == CommentAt(s)
      raw == IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1)
      un == Unescape(raw)
      t == TrailN(un, IsBlank)
      data == SubSeq(un, 1, Len(un) - t)
  IN [data |-> data,
      comment |-> From(un, Len(data) + 1) \o (IF j = 0 THEN <<>> ELSE From(s, j)),
      warn |-> j > 1 /\ ~IsBlank(s[j-1])]

(* From a line without terminator to data, comment and messages. *)
ReadLine(body) ==
  LET eol == Len(body) > 0 /\ IsBlank(body[Len(body)])
      c == CommentSplit(RStripB(body))
  IN [data |-> c.data, comment |-> c.comment,
      ms |-> (IF eol THEN <<<<"W_WSH_EOL", <<>>>>>> ELSE <<>>) \o
             (IF c.warn THEN <<<<"W_WSH_COMMENT", <<>>>>>> ELSE <<>>)]

(* ---- the dialect of vg: a comment starts at the first semicolon that is not
   inside quotes or parentheses; inside double quotes parentheses do not count,
   and there is no escaping.  The stack holds the openers (34 39 40).         *)
VgTop(stack) == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]
VgPop(stack) == SubSeq(stack, 1, Len(stack) - 1)
VgStack(stack, c) ==
  CASE c \in {34, 39} -> IF VgTop(stack) = c THEN VgPop(stack) ELSE Append(stack, c)
    [] c = 40 /\ VgTop(stack) # 34 -> Append(stack, 40)
    [] c = 41 /\ VgTop(stack) = 40 -> VgPop(stack)
    [] OTHER -> stack
VgCommentAt(s) ==
  FoldLeft(LAMBDA a, i: IF a.at > 0 THEN a
                        ELSE IF s[i] = 59 /\ a.stack = <<>> THEN [a EXCEPT !.at = i]
                        ELSE [a EXCEPT !.stack = VgStack(@, s[i])],
           [at |-> 0, stack |-> <<>>], [i \in 1..Len(s) |-> i]).at
VgReadLine(body) ==
  LET eol == Len(body) > 0 /\ IsBlank(body[Len(body)])
      s == RStripB(body)
      j == VgCommentAt(s)
      raw == IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1)
      data == RStripB(raw)
  IN [data |-> data, comment |-> From(s, Len(data) + 1),
      ms |-> (IF eol THEN <<<<"W_WSH_EOL", <<>>>>>> ELSE <<>>) \o
             (IF j > 1 /\ ~IsBlank(s[j-1]) THEN <<<<"W_WSH_COMMENT", <<>>>>>> ELSE <<>>)]

(* ---- classification ---- *)
sSame == S("same")
sInclude == S("#include")
sTryInclude == S("#tryinclude")
sExec == S("#exec")
sArrow == S(" => ")

Header(data) ==
  LET ld == LeadN(data, IsWs) IN
  IF ld < Len(data) /\ data[ld+1] = 91 /\ \E j \in (ld+2)..Len(data) : data[j] = 93
  THEN LET j == IdxFrom(data, 93, ld + 2)
           rest == LStrip(From(data, j + 1))
           name == SubSeq(data, ld + 2, j - 1)
       IN IF j = Len(data) THEN [k |-> "ctx", name |-> name, tmpl |-> FALSE, bol |-> ld > 0]
          ELSE IF Len(rest) = 3 /\ rest[1] = 40 /\ rest[3] = 41 /\ rest[2] # 41 /\ rest[2] # 43
          THEN [k |-> "ctx", name |-> name, tmpl |-> TRUE, bol |-> ld > 0]
          ELSE [k |-> "none"]
  ELSE [k |-> "none"]

Setting(data) ==
  LET j == Idx(data, 61) IN
  IF j = 0 THEN [k |-> "none"]
  ELSE LET arrow == j < Len(data) /\ data[j+1] = 62
           var0 == RStrip(SubSeq(data, 1, j - 1))
           val == LStrip(From(data, IF arrow THEN j + 2 ELSE j + 1))
           sep == SubSeq(data, Len(var0) + 1, Len(data) - Len(val))
           ld == Len(var0) > 0 /\ IsBlank(var0[1])
           var == IF ld THEN LStripB(var0) ELSE var0
       IN [k |-> "set", var |-> var, val |-> val, arrow |-> arrow,
           ms |-> (IF arrow /\ sep # sArrow THEN <<<<"W_WSH_OBJSET", <<>>>>>> ELSE <<>>) \o
                  (IF ~arrow /\ sep # <<61>> THEN <<<<"W_WSH_VARSET", <<>>>>>> ELSE <<>>) \o
                  (IF ld /\ var # sSame THEN <<<<"W_WSH_BOL", <<>>>>>> ELSE <<>>)]

BadLine(t) == [k |-> "bad", ms |-> <<<<"E_CONF_BAD_LINE", Take(t, 16)>>>>]

Directive(data) ==
  LET text == LStrip(data)
      lead == IF Len(text) < Len(data) THEN <<<<"W_WSH_BOL", <<>>>>>> ELSE <<>>
      bad == [k |-> "pp", what |-> "bad", rest |-> <<>>,
              ms |-> lead \o <<<<"E_CONF_BAD_LINE", Take(text, 16)>>>>]
      what == IF StartsWith(text, sInclude) THEN "include"
              ELSE IF StartsWith(text, sTryInclude) THEN "tryinclude"
              ELSE IF StartsWith(text, sExec) THEN "exec" ELSE "none"
      rest0 == IF what = "include" THEN From(text, 9)
               ELSE IF what = "tryinclude" THEN From(text, 12)
               ELSE IF what = "exec" THEN From(text, 6) ELSE <<>>
      n == LeadN(rest0, LAMBDA c: c <= 32)
      sepc == SubSeq(rest0, 1, n)
      arg == From(rest0, n + 1)
      q(c, d) == Len(arg) > 1 /\ arg[1] = c /\ arg[Len(arg)] = d
      strip == q(34, 34) \/ q(60, 62)
      ctrl == ~(\A i \in 1..n : sepc[i] = 32) /\ ~(\A i \in 1..n : sepc[i] = 9)
      quote == ~strip /\ (arg[1] \in {60, 34} \/ arg[Len(arg)] \in {62, 34})
      val == IF strip THEN SubSeq(arg, 2, Len(arg) - 1) ELSE arg
  IN IF what = "none" \/ n = 0 \/ n = Len(rest0) THEN bad
     ELSE [k |-> "pp", what |-> what, rest |-> val,
           ms |-> lead \o (IF ctrl THEN <<<<"W_WSH_CTRL", <<>>>>>> ELSE <<>>) \o
                  (IF quote THEN <<<<"W_PP_QUOTE_BAD", <<>>>>>> ELSE <<>>) \o
                  (IF what = "exec" THEN <<<<"W_PP_EXEC", val>>>> ELSE <<>>)]

Classify(data) ==
  LET h == Header(data) IN
  IF h.k # "none" THEN h
  ELSE LET st == Setting(data) IN
       IF st.k # "none" THEN st
       ELSE IF \A i \in 1..Len(data) : IsWs(data[i]) THEN [k |-> "empty"]
       ELSE IF LStrip(data)[1] = 35 THEN Directive(data)
       ELSE BadLine(data)
=============================================================================
