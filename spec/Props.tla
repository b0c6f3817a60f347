-------------------------------- MODULE Props ---------------------------------
(* The properties, stated a second time over a whole finished run: from the
   input as one flat sequence of lines to what was reported and kept, without
   the machinery of Lint (no stacks, no per-line updates).                    *)
EXTENDS Commands

(* ---------- the input, flattened ---------- *)
LineOf(raw) == LET b == RawLine(raw).body d == IF Vg(cs) THEN VgReadLine(b) ELSE ReadLine(b) IN [e |-> Classify(d.data), data |-> d.data, c |-> d.comment # <<>>]
RECURSIVE Flatten(_, _, _, _)
(* open: the files being read; inst: the line numbers of the directives that lead here *)
Flatten(nm, open, inst, follow) ==
  LET ls == cs.files[FileNo(cs, nm)].lines IN
  Flat([i \in 1..Len(ls) |->
    LET q == LineOf(ls[i])
        inc == follow /\ q.e.k = "pp" /\ (Vg(cs) => ls[i][1] = 35) /\ q.e.what \in {"include", "tryinclude"}
        to == IF inc THEN PathJoin(DirName(nm), q.e.rest) ELSE <<>>
        loop == inc /\ Real(cs, to) \in open
        goes == inc /\ ~loop /\ FileNo(cs, to) # 0
    IN <<[f |-> nm, l |-> i, raw |-> ls[i], e |-> q.e, c |-> q.c, data |-> q.data, inst |-> inst,
          inc |-> inc, loop |-> loop, goes |-> goes]>>
       \o (IF goes THEN Flatten(to, open \cup {Real(cs, to)}, Append(inst, i), follow) ELSE <<>>)])
RootOf == cs.runs[Len(cs.runs)].root
FlatInput == Flatten(RootOf, {Real(cs, RootOf)}, <<>>, cs.runs[Len(cs.runs)].mode # "reader")

(* ---------- what was reported ---------- *)
PlacesOf(c) == LET m == SelectSeq(st.msgs, LAMBDA x: x.c = c) IN [i \in 1..Len(m) |-> <<m[i].f, m[i].l>>]
(* class c is reported for exactly the lines that satisfy P, once for each *)
Exactly(in, c, P(_)) ==
  LET js == SelectSeq([j \in 1..Len(in) |-> j], P)
  IN SameBag(PlacesOf(c), [i \in 1..Len(js) |-> <<in[js[i]].f, in[js[i]].l>>])
Distinct(in) == \A j, k \in 1..Len(in) : j # k => <<in[j].f, in[j].l>> # <<in[k].f, in[k].l>>
Max0(T) == IF T = {} THEN 0 ELSE CHOOSE x \in T : \A y \in T : y <= x
Min0(T) == IF T = {} THEN 0 ELSE CHOOSE x \in T : \A y \in T : x <= y

(* ---------- C01 ---------- *)
Attributed(in) ==
  LET places == {<<in[j].f, in[j].l>> : j \in 1..Len(in)}
      heads == {<<in[j].f, in[j].l>> : j \in {k \in 1..Len(in) : in[k].e.k = "ctx"}}
      sets == {<<in[j].f, in[j].l>> : j \in {k \in 1..Len(in) : in[k].e.k = "set"}}
      files == {in[j].f : j \in 1..Len(in)}
  IN /\ \A i \in 1..Len(st.msgs) : \/ <<st.msgs[i].f, st.msgs[i].l>> \in places
                                   \/ st.msgs[i].l = 0 /\ st.msgs[i].f \in files
     /\ \A i \in 1..Len(st.conf) :
          /\ <<st.conf[i].f, st.conf[i].l>> \in heads
          /\ \A k \in 1..Len(st.conf[i].sets) : <<st.conf[i].sets[k].f, st.conf[i].sets[k].l>> \in sets
     /\ \A i \in 1..Len(st.dp.ctxs) :
          /\ <<st.dp.ctxs[i].f, st.dp.ctxs[i].l>> \in heads
          /\ \A k \in 1..Len(st.dp.ctxs[i].exts) : <<st.dp.ctxs[i].exts[k].f, st.dp.ctxs[i].exts[k].l>> \in sets

(* ---------- C02 ---------- *)
Cont(b) == b \in 128..191
RECURSIVE ValidUtf8(_)
ValidUtf8(bs) ==
  \/ bs = <<>>
  \/ bs[1] < 128 /\ ValidUtf8(Tail(bs))
  \/ Len(bs) >= 2 /\ bs[1] \in 194..223 /\ Cont(bs[2]) /\ ValidUtf8(From(bs, 3))
  \/ /\ Len(bs) >= 3 /\ bs[1] \in 224..239 /\ Cont(bs[2]) /\ Cont(bs[3])
     /\ (bs[1] = 224 => bs[2] >= 160) /\ (bs[1] = 237 => bs[2] < 160)
     /\ ValidUtf8(From(bs, 4))
  \/ /\ Len(bs) >= 4 /\ bs[1] \in 240..244 /\ Cont(bs[2]) /\ Cont(bs[3]) /\ Cont(bs[4])
     /\ (bs[1] = 240 => bs[2] >= 144) /\ (bs[1] = 244 => bs[2] < 144)
     /\ ValidUtf8(From(bs, 5))
HasLf(bs) == EndsWith(bs, <<10>>)
HasCrLf(bs) == EndsWith(bs, <<13, 10>>)
(* without the terminator *)
Bare(bs) == IF HasCrLf(bs) THEN SubSeq(bs, 1, Len(bs) - 2) ELSE IF HasLf(bs) THEN SubSeq(bs, 1, Len(bs) - 1) ELSE bs
C02Holds(in) ==
  LET n == Len(in)
      first == [j \in 1..n |-> \A k \in 1..(j-1) : in[k].inst # in[j].inst]
      last == [j \in 1..n |-> \A k \in (j+1)..n : in[k].inst # in[j].inst]
      dos == [j \in 1..n |-> LET k == CHOOSE k \in 1..j : first[k] /\ in[k].inst = in[j].inst
                             IN HasCrLf(in[k].raw) \/ ~HasLf(in[k].raw)]
  IN /\ Exactly(in, "E_FILE_UTF8_BAD", LAMBDA j: ~ValidUtf8(in[j].raw))
     /\ Exactly(in, "W_FILE_CTRL_CHAR", LAMBDA j: \E i \in 1..Len(in[j].raw) : in[j].raw[i] \in (0..31) \ {9, 10, 13})
     /\ Exactly(in, "W_WSH_EOL", LAMBDA j: EndsWith(Bare(in[j].raw), <<32>>) \/ EndsWith(Bare(in[j].raw), <<9>>))
     /\ Exactly(in, "W_FILE_DOS_BARELF", LAMBDA j: dos[j] /\ HasLf(in[j].raw) /\ ~HasCrLf(in[j].raw))
     /\ Exactly(in, "W_FILE_UNIX_CRLF", LAMBDA j: ~dos[j] /\ HasCrLf(in[j].raw))
     /\ Exactly(in, "W_FILE_UNIX_NOLF", LAMBDA j: last[j] /\ ~dos[j] /\ ~HasLf(in[j].raw))
     /\ Exactly(in, "W_FILE_DOS_EOFCRLF", LAMBDA j: last[j] /\ dos[j] /\ HasLf(in[j].raw))

(* ---------- C03 ---------- *)
(* the split as an automaton: one character after the other, the escape undone *)
SplitWalk(s) ==
  FoldLeft(LAMBDA a, c:
      IF a.in = "comment" THEN [a EXCEPT !.comment = Append(@, c)]
      ELSE IF c = 59 /\ a.prev = 92 THEN [a EXCEPT !.data = SubSeq(@, 1, Len(@) - 1) \o <<59>>, !.prev = c]
      ELSE IF c = 59 THEN [a EXCEPT !.in = "comment", !.comment = <<59>>, !.before = a.prev]
      ELSE [a EXCEPT !.data = Append(@, c), !.prev = c],
    [in |-> "data", data |-> <<>>, comment |-> <<>>, prev |-> 0, before |-> 32], s)
C03Holds(in) ==
  LET text(j) == RStripB(DecodeLine(Bare(in[j].raw)).out)
      walk == [j \in 1..Len(in) |-> SplitWalk(text(j))]
  IN /\ Exactly(in, "W_WSH_COMMENT", LAMBDA j: walk[j].before \notin {0, 9, 32})
     /\ st.mode = "reader" =>
          /\ Len(st.read) = Len(in)
          /\ \A j \in 1..Len(in) :
               /\ st.read[j].f = in[j].f /\ st.read[j].l = in[j].l
               /\ st.read[j].data \o st.read[j].comment = walk[j].data \o walk[j].comment
               /\ st.read[j].data = RStripB(walk[j].data)

(* ---------- C26 ---------- *)
(* s can be derived inside the opener o (0: none): plain characters, and pairs
   of an opener and its closer around what can be derived inside that one       *)
RECURSIVE VgClosed(_, _)
VgClosed(s, o) ==
  \/ s = <<>>
  \/ LET c == s[1]
         opens == c \in {34, 39} \ {o} \/ (c = 40 /\ o # 34)
         plain == ~opens /\ ~(c \in {34, 39} /\ c = o) /\ ~(c = 41 /\ o = 40)
     IN \/ plain /\ VgClosed(Tail(s), o)
        \/ opens /\ \E k \in 2..Len(s) : /\ s[k] = IF c = 40 THEN 41 ELSE c
                                         /\ VgClosed(SubSeq(s, 2, k - 1), c)
                                         /\ VgClosed(From(s, k + 1), o)
VgSplitAt(s) == Min0({i \in 1..Len(s) : s[i] = 59 /\ VgClosed(SubSeq(s, 1, i - 1), 0)})
C26Holds(in) ==
  LET n == Len(in)
      body == [j \in 1..n |-> DecodeLine(Bare(in[j].raw)).out]
      text == [j \in 1..n |-> RStripB(body[j])]
      split == [j \in 1..n |-> VgSplitAt(text[j])]
      data == [j \in 1..n |-> RStripB(IF split[j] = 0 THEN text[j] ELSE SubSeq(text[j], 1, split[j] - 1))]
      comment == [j \in 1..n |-> From(text[j], Len(data[j]) + 1)]
      blank(j) == body[j] # <<>> /\ body[j][1] \in {9, 32}
      direct(j) == body[j] # <<>> /\ body[j][1] = 35 /\ data[j] # <<>>
      \* the line at which the one of j began
      starts == [j \in 1..n |-> j = 1 \/ ~blank(j) \/ direct(j - 1)]
      start == [j \in 1..n |-> CHOOSE k \in 1..j : starts[k] /\ \A i \in (k+1)..j : ~starts[i]]
      heads == SelectSeq([j \in 1..n |-> j], LAMBDA j: starts[j])
      mine(h) == SelectSeq([j \in 1..n |-> j], LAMBDA j: start[j] = h)
      whole(h) == [f |-> in[h].f, l |-> in[h].l,
                   data |-> Flat([i \in 1..Len(mine(h)) |-> data[mine(h)[i]]]),
                   comment |-> Flat([i \in 1..Len(mine(h)) |-> comment[mine(h)[i]]])]
      lines == [i \in 1..Len(heads) |-> whole(heads[i])]
      elems == [i \in 1..Len(lines) |-> Classify(lines[i].data)]
      ctxs == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i: elems[i].k = "ctx")
      \* of the headers of one name the last one counts
      kept == SelectSeq(ctxs, LAMBDA i: \A k \in (i+1)..Len(lines) : elems[k].k = "ctx" => elems[k].name # elems[i].name)
      section(i) == SelectSeq([k \in 1..Len(lines) |-> k],
                              LAMBDA k: k > i /\ elems[k].k = "set" /\ \A m \in (i+1)..k : elems[m].k # "ctx")
      shown == SelectSeq(kept, LAMBDA i: elems[i].name \notin {sGeneral, sGlobals})
  IN /\ Exactly(in, "W_WSH_EOL", LAMBDA j: text[j] # body[j])
     /\ Exactly(in, "W_WSH_COMMENT", LAMBDA j: split[j] > 1 /\ text[j][split[j] - 1] \notin {9, 32})
     /\ st.mode = "reader" =>
          /\ st.read = lines
          /\ Exactly(in, "W_WSH_BOL", LAMBDA j: start[j] # j /\ \A k \in start[j]..(j-1) : data[k] = <<>>)
     /\ st.mode = "conf" =>
          st.conf = [x \in 1..Len(kept) |->
            LET i == kept[x] t == section(i) IN
            [name |-> elems[i].name, f |-> lines[i].f, l |-> lines[i].l,
             sets |-> [y \in 1..Len(t) |-> LET e == elems[t[y]] IN
                        [var |-> e.var, val |-> e.val, arrow |-> e.arrow, f |-> lines[t[y]].f, l |-> lines[t[y]].l]]]]
     /\ st.mode = "dialplan" =>
          /\ Len(st.dp.ctxs) = Len(shown)
          /\ \A x \in 1..Len(shown) :
               LET i == shown[x] t == section(i) c == st.dp.ctxs[x] IN
               /\ c.name = elems[i].name /\ c.f = lines[i].f /\ c.l = lines[i].l
               /\ \A y \in 1..Len(c.exts) : \E k \in 1..Len(t) : c.exts[y].f = lines[t[k]].f /\ c.exts[y].l = lines[t[k]].l

(* ---------- C04 ---------- *)
HeaderOf(in, j) == Max0({k \in 1..j : in[k].e.k = "ctx"})
SettingIs(in, j, s) ==
  /\ s.f = in[j].f /\ s.l = in[j].l /\ s.var = in[j].e.var /\ s.val = in[j].e.val /\ s.arrow = in[j].e.arrow
(* the text around the first equals sign *)
Loose(d) ==
  LET j == Idx(d, 61)
      arrow == j < Len(d) /\ d[j + 1] = 62
      ws(i) == i \in 1..Len(d) /\ IsWs(d[i])
      a == IF arrow THEN j + 2 ELSE j + 1
  IN IF arrow THEN ~(/\ j > 1 /\ d[j - 1] = 32 /\ ~ws(j - 2)
                     /\ a <= Len(d) /\ d[a] = 32 /\ ~ws(a + 1))
     ELSE ws(j - 1) \/ ws(a)
C04Holds(in) ==
  LET n == Len(in)
      js == [j \in 1..n |-> j]
      heads == SelectSeq(js, LAMBDA j: in[j].e.k = "ctx")
      sets(h) == SelectSeq(js, LAMBDA j: in[j].e.k = "set" /\ HeaderOf(in, j) = h)
  IN /\ st.mode = "conf" =>
          /\ Len(st.conf) = Len(heads)
          /\ \A i \in 1..Len(heads) :
               /\ st.conf[i].name = in[heads[i]].e.name
               /\ st.conf[i].f = in[heads[i]].f /\ st.conf[i].l = in[heads[i]].l
               /\ Len(st.conf[i].sets) = Len(sets(heads[i]))
               /\ \A k \in 1..Len(st.conf[i].sets) : SettingIs(in, sets(heads[i])[k], st.conf[i].sets[k])
     /\ Exactly(in, "E_CONF_CTX_MISSING", LAMBDA j: in[j].e.k = "set" /\ HeaderOf(in, j) = 0)
     \* what is no header, no setting, not blank and no good directive is bad
     /\ Exactly(in, "E_CONF_BAD_LINE", LAMBDA j: /\ in[j].e.k \notin {"ctx", "set"}
                                                 /\ \E i \in 1..Len(in[j].data) : ~IsWs(in[j].data[i])
                                                 /\ ~(in[j].e.k = "pp" /\ in[j].e.what # "bad"))
     /\ Exactly(in, "W_WSH_OBJSET", LAMBDA j: in[j].e.k = "set" /\ in[j].e.arrow /\ Loose(in[j].data))
     /\ Exactly(in, "W_WSH_VARSET", LAMBDA j: in[j].e.k = "set" /\ ~in[j].e.arrow /\ Loose(in[j].data))
     \* nothing is a setting and something else
     /\ \A j \in 1..n : /\ in[j].e.k = "set" => Has(in[j].data, 61)
                        /\ in[j].e.k \in {"bad", "pp", "empty"} => ~Has(in[j].data, 61)
                        /\ in[j].e.k = "ctx" => LStrip(in[j].data)[1] = 91

(* ---------- C05 ---------- *)
C05Holds(in) ==
  LET seen == SelectSeq([j \in 1..Len(in) |-> j], LAMBDA j: in[j].e.k \in {"ctx", "set", "empty"})
      insts == {in[j].inst : j \in 1..Len(in)}
      lastinst == IF seen = <<>> THEN <<>> ELSE in[seen[Len(seen)]].inst
      (* the files still being read when the input ends, but for the last one *)
      waiting == {x \in insts : Len(x) < Len(lastinst) /\ StartsWith(lastinst, x)}
      cat == [j \in 1..Len(in) |-> IF in[j].e.k = "ctx" THEN "H" ELSE IF in[j].e.k = "set" THEN "S"
                                   ELSE IF in[j].c THEN "C" ELSE "B"]
      (* <<class, line>> for one file *)
      faults(x) ==
        LET own == SelectSeq(seen, LAMBDA j: in[j].inst = x)
            n == Len(own)
            next(p) == Min0({r \in (p+1)..n : cat[own[r]] \in {"H", "S"}})
            ends == {p \in 1..n : cat[own[p]] = "B" /\ (p = n \/ cat[own[p+1]] # "B")}
            start(p) == Max0({q \in 1..(p-1) : cat[own[q]] # "B"}) + 1
            size(p) == p + 1 - start(p)
            settings(p) == LET h == Max0({q \in 1..(p-1) : cat[own[q]] = "H"})
                           IN Cardinality({q \in (h+1)..(p-1) : cat[own[q]] = "S"})
        IN {<<"W_WSV_EOF", own[p]>> : p \in {p \in ends : p = n /\ x \notin waiting}}
           \cup {<<"W_WSV_BOF", own[1]>> : p \in {p \in ends : start(p) = 1 /\ next(p) # 0}}
           \cup {<<"H_WSV_CTX_BETWEEN", own[p]>> : p \in {p \in ends : p < n /\ next(p) = 0 /\ size(p) > 2}}
           \cup {<<"H_WSV_CTX_BETWEEN", own[p]>> : p \in {p \in ends : /\ start(p) > 1 /\ next(p) # 0 /\ size(p) > 2
                                                                      /\ cat[own[next(p)]] = "H"}}
           \cup {<<"H_WSV_VARSET_BETWEEN", own[p]>> : p \in {p \in ends : /\ start(p) > 1 /\ next(p) # 0 /\ size(p) > 1
                                                                         /\ cat[own[next(p)]] = "S"}}
           \cup {<<"H_WSV_CTX_BETWEEN", own[p]>> : p \in {p \in 2..n : /\ cat[own[p]] = "H" /\ cat[own[p-1]] \in {"H", "S"}
                                                                      /\ settings(p) > 2}}
      all == UNION {faults(x) : x \in insts}
      classes == {"W_WSV_BOF", "W_WSV_EOF", "H_WSV_CTX_BETWEEN", "H_WSV_VARSET_BETWEEN"}
  IN \A c \in classes : Exactly(in, c, LAMBDA j: <<c, j>> \in all)

(* ---------- C06 ---------- *)
(* at any time *)
NeverTwiceOpen == \A i, j \in 1..Len(st.rd) : i # j => Real(cs, st.rd[i].nm) # Real(cs, st.rd[j].nm)
C06Holds(in) ==
  /\ Exactly(in, "E_PP_INCLUDE_LOOP", LAMBDA j: in[j].loop)
  /\ Exactly(in, "W_PP_INCLUDE_MISSING", LAMBDA j: in[j].inc /\ ~in[j].loop /\ ~in[j].goes /\ in[j].e.what = "include")
  /\ Exactly(in, "W_PP_EXEC", LAMBDA j: in[j].e.k = "pp" /\ in[j].e.what = "exec")
  /\ \A j \in 1..Len(in) : in[j].e.k = "pp" => LStrip(in[j].data)[1] = 35
  \* the part after the word, seen from both ends
  /\ Exactly(in, "W_PP_QUOTE_BAD", LAMBDA j:
       in[j].e.k = "pp" /\ in[j].e.what # "bad" /\
       LET d == in[j].data
           i == CHOOSE i \in 1..Len(d) : d[i] <= 32 /\ \E k \in 1..(i-1) : d[k] > 32 /\ \A k2 \in k..(i-1) : d[k2] > 32
           b == CHOOSE k \in (i+1)..Len(d) : d[k] > 32 /\ \A k2 \in i..(k-1) : d[k2] <= 32
           x == d[b] y == d[Len(d)]
       IN (x \in {34, 60} \/ y \in {34, 62}) /\ ~(b < Len(d) /\ ((x = 34 /\ y = 34) \/ (x = 60 /\ y = 62))))

(* ---------- dialplan lines ---------- *)
(* everything below needs every line to be read once *)
Normal(name) == name \notin {sGeneral, sGlobals}
CtxNameOf(in, j) == in[HeaderOf(in, j)].e.name
InCtx(in, j) == in[j].e.k = "set" /\ HeaderOf(in, j) # 0 /\ Normal(CtxNameOf(in, j))
MsgAt(in, j, c) == \E i \in 1..Len(st.msgs) : st.msgs[i].c = c /\ st.msgs[i].f = in[j].f /\ st.msgs[i].l = in[j].l
(* the accepted line at j, as <<context, number>>, or <<0, 0>> *)
KeptAt(in, j) ==
  LET at == {<<i, k>> \in (1..Len(st.dp.ctxs)) \X (1..Len(in)) :
              /\ k <= Len(st.dp.ctxs[i].exts)
              /\ st.dp.ctxs[i].exts[k].f = in[j].f /\ st.dp.ctxs[i].exts[k].l = in[j].l}
  IN IF at = {} THEN <<0, 0>> ELSE CHOOSE a \in at : TRUE
Lines(in) ==
  LET js == SelectSeq([j \in 1..Len(in) |-> j], LAMBDA j: InCtx(in, j) /\ in[j].e.var \in {S("exten"), sSame})
  IN [i \in 1..Len(js) |->
       LET j == js[i]
           x == SplitExten(in[j].e.var, in[j].e.val)
           at == KeptAt(in, j)
           kept == at[1] # 0
           dupes == SelectSeq(st.msgs, LAMBDA m: m.c = "E_DP_PRIO_DUPE" /\ m.f = in[j].f /\ m.l = in[j].l)
           ext == IF kept THEN st.dp.ctxs[at[1]].exts[at[2]] ELSE <<>>
       IN [j |-> j, x |-> x, h |-> HeaderOf(in, j), ctx |-> CtxNameOf(in, j),
           good |-> x.k = "ok" /\ (x.pat # <<>> => ParsePat(x.pat).ok),
           at |-> at, kept |-> kept, ext |-> ext, same |-> in[j].e.var = sSame,
           dupe |-> dupes # <<>>, numbered |-> kept \/ dupes # <<>>,
           prio |-> IF kept THEN ext.prio ELSE IF dupes # <<>> THEN Split1(dupes[1].a, -1)[1] ELSE <<>>]]

(* ---------- C07 ---------- *)
C07Holds(in) ==
  LET d == Lines(in)
      n == Len(d)
      before(i) == Max0({k \in 1..(i-1) : d[k].numbered})                      \* anywhere
      above(i) == Max0({k \in 1..(i-1) : d[k].kept /\ d[k].ctx = d[i].ctx})    \* in this context
      pat(i) == IF ~d[i].same THEN d[i].x.pat ELSE d[above(i)].ext.raw
      mine(i) == Max0({k \in 1..(i-1) : /\ d[k].kept /\ d[k].ctx = d[i].ctx
                                        /\ PatEq(d[k].ext.pt, ParsePat(pat(i)))})
      why(i) == IF ~d[i].good THEN "bad"
                ELSE IF d[i].same /\ above(i) = 0 THEN "nopattern"
                ELSE IF d[i].x.prio = <<>> /\ before(i) = 0 THEN "noprio"
                ELSE IF d[i].x.prio = <<48>> THEN "zero" ELSE "ok"
      verdict == [i \in 1..n |-> why(i)]
      at(P(_)) == {d[i].j : i \in {k \in 1..n : P(k)}}
      bad(c) == at(LAMBDA i: d[i].x.k = "bad" /\ d[i].x.c = c)
      badorder == at(LAMBDA i:
        verdict[i] = "ok" /\
        IF d[i].x.prio # <<>>
        THEN /\ d[i].prio # <<49>>
             /\ \/ mine(i) = 0
                \/ d[mine(i)].prio # d[i].prio /\ IncDigits(d[mine(i)].prio) # d[i].prio
        ELSE \/ above(i) = 0
             \/ ~PatEq(d[above(i)].ext.pt, ParsePat(pat(i)))
             \/ ~\E k \in 1..(i-1) : d[k].numbered /\ d[k].h = d[i].h)
      hits(c, T) == Exactly(in, c, LAMBDA j: j \in T)
  IN /\ \A i \in 1..n :
          /\ verdict[i] = "ok" <=> d[i].numbered
          /\ verdict[i] = "ok" => d[i].prio = (IF d[i].x.prio # <<>> THEN d[i].x.prio ELSE IncDigits(d[before(i)].prio))
          /\ d[i].kept => /\ d[i].ext.raw = pat(i)
                          /\ st.dp.ctxs[d[i].at[1]].name = d[i].ctx
                          /\ d[i].ext.app = d[i].x.app
     /\ hits("W_DP_PRIO_BADORDER", badorder)
     /\ hits("E_DP_PRIO_MISSING", bad("E_DP_PRIO_MISSING") \cup at(LAMBDA i: verdict[i] = "noprio"))
     /\ hits("E_DP_PAT_MISSING", bad("E_DP_PAT_MISSING") \cup at(LAMBDA i: verdict[i] = "nopattern"))
     /\ hits("E_DP_PRIO_INVALID", bad("E_DP_PRIO_INVALID") \cup at(LAMBDA i: verdict[i] = "zero"))
     /\ hits("E_DP_LABEL_INVALID", bad("E_DP_LABEL_INVALID"))
     /\ hits("I_NOTIMPL_HINT", bad("I_NOTIMPL_HINT"))
     /\ hits("E_DP_PAT_INVALID", at(LAMBDA i: d[i].x.k = "ok" /\ ~d[i].good))

(* ---------- C08 ---------- *)
C08Holds(in) ==
  LET n == Len(in)
      js == [j \in 1..n |-> j]
      head(j) == in[j].e.k = "ctx"
      named(j, x) == head(j) /\ in[j].e.name = x
      nth(j) == Cardinality({k \in 1..j : named(k, in[j].e.name)})      \* header j is the nth of its name
      firsts == SelectSeq(js, LAMBDA j: head(j) /\ Normal(in[j].e.name) /\ nth(j) = 1)
      some(x, j) == \E k \in 1..(j-1) : named(k, x)
      normal(j) == \E k \in 1..(j-1) : head(k) /\ Normal(in[k].e.name)
      under(x, var) == SelectSeq(js, LAMBDA j: InCtx(in, j) /\ CtxNameOf(in, j) = x /\ in[j].e.var = var)
      setsOf(x, all) == SelectSeq(js, LAMBDA j: /\ in[j].e.k = "set" /\ HeaderOf(in, j) # 0
                                                /\ CtxNameOf(in, j) = x /\ (all \/ nth(HeaderOf(in, j)) = 1))
      sets(got, exp) == Len(got) = Len(exp) /\ \A i \in 1..Len(got) : SettingIs(in, exp[i], got[i])
      absent(x) == firsts # <<>> /\ ~\E j \in 1..n : named(j, x)
      zero(c) == Cardinality({i \in 1..Len(st.msgs) : st.msgs[i].c = c /\ st.msgs[i].l = 0})
      hint(c, x, P(_)) ==
        /\ zero(c) = (IF absent(x) THEN 1 ELSE 0)
        /\ LET at == SelectSeq(js, P)
               ms == SelectSeq(st.msgs, LAMBDA m: m.c = c /\ m.l # 0)
           IN SameBag([i \in 1..Len(ms) |-> <<ms[i].f, ms[i].l>>], [i \in 1..Len(at) |-> <<in[at[i]].f, in[at[i]].l>>])
  IN /\ Len(st.dp.ctxs) = Len(firsts)
     /\ \A i \in 1..Len(firsts) :
          LET ctx == st.dp.ctxs[i] x == in[firsts[i]].e.name incs == under(x, S("include")) IN
          /\ ctx.name = x
          /\ ctx.incs = [k \in 1..Len(incs) |-> in[incs[k]].e.val]
          /\ \A k \in 1..(Len(ctx.exts) - 1) :
               (CHOOSE j \in 1..n : in[j].f = ctx.exts[k].f /\ in[j].l = ctx.exts[k].l)
               < (CHOOSE j \in 1..n : in[j].f = ctx.exts[k+1].f /\ in[j].l = ctx.exts[k+1].l)
     /\ sets(st.dp.gsets, setsOf(sGeneral, TRUE))
     /\ sets(st.dp.vsets, setsOf(sGlobals, FALSE))
     /\ Exactly(in, "W_CONF_CTX_DUPE", LAMBDA j: named(j, sGeneral) /\ nth(j) > 1)
     /\ Exactly(in, "E_DP_GLOBALS_DUPE", LAMBDA j: named(j, sGlobals) /\ nth(j) > 1)
     /\ hint("H_DP_GENERAL_MISPLACED", sGeneral, LAMBDA j: named(j, sGeneral) /\ nth(j) = 1 /\ (some(sGlobals, j) \/ normal(j)))
     /\ hint("H_DP_GLOBALS_MISPLACED", sGlobals, LAMBDA j: named(j, sGlobals) /\ nth(j) = 1 /\ (~some(sGeneral, j) \/ normal(j)))
     /\ Exactly(in, "E_CONF_KEY_INVALID", LAMBDA j: InCtx(in, j) /\ in[j].e.var \notin DpKeys)
     /\ Exactly(in, "H_CONF_NO_ARROW", LAMBDA j: InCtx(in, j) /\ in[j].e.var \in DpKeys /\ ~in[j].e.arrow)
     /\ Exactly(in, "I_NOTIMPL_SWITCH", LAMBDA j: InCtx(in, j) /\ in[j].e.var = S("switch"))
     /\ Exactly(in, "I_NOTIMPL_IGNOREPAT", LAMBDA j: InCtx(in, j) /\ in[j].e.var = S("ignorepat"))

(* ---------- C09 ---------- *)
C09Holds(in) ==
  LET d == Lines(in)
      n == Len(d)
      above(i) == Max0({k \in 1..(i-1) : d[k].kept /\ d[k].ctx = d[i].ctx})
      canon(i) == IF d[i].kept THEN d[i].ext.canon
                  ELSE IF d[i].same THEN d[above(i)].ext.canon ELSE Canonical(ParsePat(d[i].x.pat))
      twins(i) == {k \in 1..(i-1) : d[k].kept /\ d[k].ctx = d[i].ctx /\ d[k].ext.canon = canon(i)}
      prev(i) == {k \in twins(i) : d[k].prio = d[i].prio}
      labelled(i) == d[i].kept /\ Truthy(d[i].x.label)
      lprev(i) == {k \in twins(i) : d[k].ext.label = d[i].x.label}
      cites(c, i, k, what) == \E m \in 1..Len(st.msgs) :
         /\ st.msgs[m].c = c /\ st.msgs[m].f = in[d[i].j].f /\ st.msgs[m].l = in[d[i].j].l
         /\ st.msgs[m].a = Cat2(what, PlaceText(in[d[k].j].f, in[d[k].j].l))
  IN /\ \A i \in 1..n : d[i].numbered =>
          /\ d[i].dupe <=> prev(i) # {}
          /\ ~(d[i].dupe /\ d[i].kept)
          /\ d[i].dupe => \E k \in prev(i) : cites("E_DP_PRIO_DUPE", i, k, d[i].prio)
          /\ labelled(i) => IF lprev(i) # {}
                            THEN /\ ~Truthy(d[i].ext.label)
                                 /\ \E k \in lprev(i) : cites("E_DP_LABEL_DUPE", i, k, d[i].x.label)
                            ELSE d[i].ext.label = d[i].x.label
     /\ Exactly(in, "E_DP_PRIO_DUPE", LAMBDA j: \E i \in 1..n : d[i].j = j /\ d[i].numbered /\ prev(i) # {})
     /\ Exactly(in, "E_DP_LABEL_DUPE", LAMBDA j: \E i \in 1..n : d[i].j = j /\ labelled(i) /\ lprev(i) # {})
     \* what is left has no two of a kind
     /\ \A c \in 1..Len(st.dp.ctxs) : LET ex == st.dp.ctxs[c].exts IN
          \A a, b \in 1..Len(ex) : a # b /\ ex[a].canon = ex[b].canon =>
             ex[a].prio # ex[b].prio /\ (Truthy(ex[a].label) => ex[a].label # ex[b].label)

(* ---------- C10 ---------- *)
C10Holds ==
  \A c \in 1..Len(st.dp.ctxs) :
    LET ctx == st.dp.ctxs[c]
        ex == ctx.exts
        n == Len(ex)
        show == ShowCtx(ctx)
        (* the place at which line i should be: after all that come before it *)
        before(i, k) == PatLess(ex[k].pt, ex[i].pt) \/ (PatEq(ex[k].pt, ex[i].pt) /\ k < i)
        pos(i) == 1 + Cardinality({k \in 1..n : before(i, k)})
        first(i) == \A k \in 1..(i-1) : ~PatEq(ex[k].pt, ex[i].pt)
    IN /\ Len(show) = 1 + n + Len(ctx.incs) + 1
       /\ {pos(i) : i \in 1..n} = 1..n
       /\ \A i \in 1..n : show[1 + pos(i)] = IF first(i) THEN FirstLine(ex[i]) ELSE NextLine(ex[i])
       /\ \A i \in 1..Len(ctx.incs) : Occurs(show[1 + n + i], ctx.incs[i])

(* ---------- C13 ---------- *)
C13Holds(in) ==
  LET dp == st.dp
      n == Len(dp.ctxs)
      edge == {<<a, b>> \in (1..n) \X (1..n) : \E m \in 1..Len(dp.ctxs[a].incs) : dp.ctxs[a].incs[m] = dp.ctxs[b].name}
      closed == {T \in SUBSET (1..n) : \A e \in edge : e[1] \in T => e[2] \in T}
      (* reachable: in every set that holds the start and is closed *)
      reach(a) == {b \in 1..n : \A T \in closed : a \in T => b \in T}
      places == {<<c, x>> \in (1..n) \X (1..Len(in)) : x <= Len(dp.ctxs[c].exts)}
      jumps == UNION {LET x == dp.ctxs[p[1]].exts[p[2]]
                          r == AppLine(W0([ver |-> cs.ver, odbc |-> st.reg], <<>>), x.app)
                      IN {[n |-> k, d |-> JumpRec(r.w.tab, r.jumps[k], dp.ctxs[p[1]].name, x.pt, x.f, x.l)] :
                             k \in 1..Len(r.jumps)} : p \in places}
      ctxOf(d) == {c \in 1..n : dp.ctxs[c].name = d.c}
      holds(c, ext, P(_)) == \E k \in 1..Len(dp.ctxs[c].exts) : Accepts(dp.ctxs[c].exts[k].pt, ext) /\ P(dp.ctxs[c].exts[k])
      may(t, val) == IF HasVar(t) THEN Glob(t, val) ELSE t = val
      target(d, x) == IF d.int THEN x.prio = d.p
                      ELSE IF HasVar(d.p) THEN may(d.p, x.prio) \/ (Truthy(x.label) /\ may(d.p, x.label)) \/ Len(d.p) = 1
                      ELSE x.label = d.p
      fixedLabel(d) == ~d.int /\ ~HasVar(d.p)
      labelIn(d, C) == \E c \in C : \E k \in 1..Len(dp.ctxs[c].exts) : Truthy(d.p) /\ dp.ctxs[c].exts[k].label = d.p
      verdict(d) ==
        IF HasVar(d.c) THEN IF fixedLabel(d) /\ ~labelIn(d, 1..n) THEN "E_DP_GOTO_NOLABEL" ELSE ""
        ELSE IF ctxOf(d) = {} THEN "E_DP_GOTO_NOCONTEXT"
        ELSE LET R == UNION {reach(c) : c \in ctxOf(d)} IN
             IF HasVar(d.e) THEN IF fixedLabel(d) /\ ~labelIn(d, R) THEN "E_DP_GOTO_CONTEXT_NOLABEL" ELSE ""
             ELSE IF \E c \in R : holds(c, d.e, LAMBDA x: target(d, x)) THEN ""
             ELSE IF d.int /\ d.e # sI /\ \E c \in R : holds(c, sI, LAMBDA x: x.prio = <<49>>) THEN ""
             ELSE "W_DP_GOTO_CONTEXT_NOEXTEN"
      wrong(c) == {j \in jumps : verdict(j.d) = c}
      count(c, f, l) == Cardinality({j \in wrong(c) : j.d.f = f /\ j.d.l = l})
  IN \A c \in {"E_DP_GOTO_NOLABEL", "E_DP_GOTO_NOCONTEXT", "E_DP_GOTO_CONTEXT_NOLABEL", "W_DP_GOTO_CONTEXT_NOEXTEN"} :
       \A j \in 1..Len(in) :
         Cardinality({i \in 1..Len(st.msgs) : st.msgs[i].c = c /\ st.msgs[i].f = in[j].f /\ st.msgs[i].l = in[j].l})
         = count(c, in[j].f, in[j].l)

(* ---------- C17 ---------- *)
(* for lines that are no more than <name>(<plain text>) or NoOp(${<name>(x)}) *)
PlainName(app) == LET j == Idx(app, 40) IN IF j = 0 THEN app ELSE SubSeq(app, 1, j - 1)
C17Holds(in) ==
  LET d == SelectSeq(Lines(in), LAMBDA x: x.good)
      app(i) == PlainName(d[i].x.app)
      refs(i) == LET a == d[i].x.app k == Idx(a, 36)
                 IN IF k = 0 THEN <<>> ELSE SubSeq(a, k + 2, IdxFrom(a, 40, k + 2) - 1)
      cat == AppCat[cs.ver]
      fcat == FuncCat[cs.ver]
      bgs == {i \in 1..Len(d) : app(i) \in BgSpellings}
      known(i) == {cat[k].n : k \in {Lower(app(i))} \cap DOMAIN cat}
      proper(i) == IF Lower(app(i)) = S("background") /\ \E k \in bgs : k <= i
                   THEN {app(CHOOSE k \in bgs : \A k2 \in bgs : k <= k2)} ELSE known(i)
      odbc(i) == {st.reg[k].n : k \in {k \in 1..Len(st.reg) : st.reg[k].l = Lower(refs(i))}}
      fknown(i) == IF odbc(i) # {} THEN odbc(i) ELSE {fcat[k].n : k \in {Lower(refs(i))} \cap DOMAIN fcat}
      at(P(_)) == {d[i].j : i \in {k \in 1..Len(d) : P(k)}}
      hits(c, T) == Exactly(in, c, LAMBDA j: j \in T)
  IN /\ hits("E_APP_MISSING", at(LAMBDA i: proper(i) = {}))
     /\ hits("W_APP_BAD_CASE", at(LAMBDA i: proper(i) # {} /\ app(i) \notin proper(i)))
     /\ hits("E_FUNC_MISSING", at(LAMBDA i: refs(i) # <<>> /\ fknown(i) = {}))
     /\ hits("E_FUNC_BAD_CASE", at(LAMBDA i: refs(i) # <<>> /\ fknown(i) # {} /\ refs(i) \notin fknown(i)))

(* ---------- C17: modules-show ---------- *)
(* for lines like those of C17Holds; what is used and what is unknown *)
C17mHolds(in) ==
  LET d == SelectSeq(Lines(in), LAMBDA x: x.good)
      app(i) == PlainName(d[i].x.app)
      ref(i) == LET a == d[i].x.app k == Idx(a, 36)
                IN IF k = 0 THEN <<>> ELSE SubSeq(a, k + 2, IdxFrom(a, 40, k + 2) - 1)
      cat == AppCat[cs.ver]
      fcat == FuncCat[cs.ver]
      appmods == {S(cat[Lower(app(i))].m) : i \in {i \in 1..Len(d) : Lower(app(i)) \in DOMAIN cat}}
      funmods == {S(fcat[Lower(ref(i))].m) : i \in {i \in 1..Len(d) : Lower(ref(i)) \in DOMAIN fcat}}
      noapp == {app(i) : i \in {i \in 1..Len(d) : Lower(app(i)) \notin DOMAIN cat}}
      nofun == {ref(i) : i \in {i \in 1..Len(d) : ref(i) # <<>> /\ Lower(ref(i)) \notin DOMAIN fcat}}
      out == ModulesShow(st)
      starting(p) == {From(out[i], Len(p) + 1) : i \in {i \in 1..Len(out) : StartsWith(out[i], p)}}
      (* the lines after a title, up to the next ";" *)
      under(title) ==
        LET at == {i \in 1..Len(out) : out[i] = S(title)} IN
        IF at = {} THEN <<>>
        ELSE LET a == CHOOSE i \in at : TRUE
                 e == CHOOSE j \in a..Len(out) : out[j] = S(";") /\ \A k \in a..(j-1) : out[k] # S(";")
             IN SubSeq(out, a + 1, e - 1)
      (* the words of a line *)
      words(l) == LET w == SplitAll(l, 32) IN {w[i] : i \in 1..Len(w)} \ {<<>>, S(";")}
      bare(w) == IF EndsWith(w, <<44>>) THEN SubSeq(w, 1, Len(w) - 1) ELSE w
      named(title) == UNION {{bare(w) : w \in words(under(title)[i])} : i \in 1..Len(under(title))}
      called == {n \o S("()") : n \in {IF Lower(app(i)) = S("background") THEN app(CHOOSE k \in 1..Len(d) : Lower(app(k)) = S("background") /\ \A k2 \in 1..(k-1) : Lower(app(k2)) # S("background"))
                                       ELSE cat[Lower(app(i))].n : i \in {i \in 1..Len(d) : Lower(app(i)) \in DOMAIN cat}}}
      fcalled == {fcat[Lower(ref(i))].n \o S("()") : i \in {i \in 1..Len(d) : Lower(ref(i)) \in DOMAIN fcat}}
  IN /\ starting(S("load => ")) = {m \o S(".so") : m \in (appmods \cup funmods) \ {S("<builtin>")}}
     /\ named("; Application providing modules used:") = appmods \cup called
     /\ named("; Function providing modules used:") = funmods \cup fcalled
     /\ named("; WARNING: The following unknown applications were seen:") = noapp
     /\ named("; WARNING: The following unknown functions were seen:") = nofun
     /\ ModulesStatus(st) = (IF noapp \cup nofun # {} THEN 1 ELSE 0)

(* ---------- C18 ---------- *)
C18Holds(in) ==
  LET n == Len(in)
      js == [j \in 1..n |-> j]
      heads == SelectSeq(js, LAMBDA j: in[j].e.k = "ctx")
      set(j) == in[j].e.k = "set" /\ HeaderOf(in, j) # 0
      pos(j) == OdbcPos(in[j].e.var)
      (* the first of its key in its section *)
      first(j) == ~\E k \in 1..(j-1) : set(k) /\ HeaderOf(in, k) = HeaderOf(in, j) /\ in[k].e.var = in[j].e.var
      counts(j) == set(j) /\ pos(j) # 0 /\ first(j)
      prev(j) == Max0({k \in 1..(j-1) : counts(k) /\ HeaderOf(in, k) = HeaderOf(in, j)})
      has(h, keys) == \E j \in 1..n : counts(j) /\ HeaderOf(in, j) = h /\ in[j].e.var \in keys
      value(h, key) == in[CHOOSE j \in 1..n : counts(j) /\ HeaderOf(in, j) = h /\ in[j].e.var = key].e.val
      useful(h) == has(h, {S("read"), S("write"), S("readsql"), S("writesql")})
      prefix(h) == IF has(h, {S("prefix")}) /\ value(h, S("prefix")) # <<>> THEN value(h, S("prefix")) ELSE S("ODBC")
      made == SelectSeq(heads, useful)
      names == [i \in 1..Len(made) |-> prefix(made[i]) \o <<95>> \o in[made[i]].e.name]
      base == Len(cs.odbc)
  IN /\ Len(st.reg) = base + Len(made)
     /\ \A i \in 1..Len(made) : st.reg[base + i] = [n |-> names[i], l |-> Lower(names[i])]
     /\ Exactly(in, "E_ODBC_NOSQL", LAMBDA j: in[j].e.k = "ctx" /\ ~useful(j))
     /\ Exactly(in, "E_CONF_KEY_INVALID", LAMBDA j: set(j) /\ pos(j) = 0)
     /\ Exactly(in, "E_CONF_KEY_DUPE", LAMBDA j: set(j) /\ pos(j) # 0 /\ ~first(j))
     /\ Exactly(in, "W_CONF_KEY_LATE", LAMBDA j: counts(j) /\ prev(j) # 0 /\ pos(j) < pos(prev(j)))
     /\ Exactly(in, "W_ODBC_LEGACY", LAMBDA j: counts(j) /\ in[j].e.var \in {S("read"), S("write")})
     /\ Exactly(in, "W_ODBC_TAILSEMI", LAMBDA j: /\ counts(j) /\ EndsWith(in[j].e.val, <<59>>)
                                                 /\ in[j].e.var \in {S("read"), S("write"), S("readsql"), S("writesql"), S("insertsql")})
     /\ Exactly(in, "H_CONF_HAS_ARROW", LAMBDA j: in[j].e.k = "set" /\ in[j].e.arrow)
     /\ Exactly(in, "W_ODBC_BADTOKENS", LAMBDA j: in[j].e.k = "ctx" /\
          LET w == SplitAll(in[j].e.name, 95) IN
          ~\A i \in 1..Len(w) : w[i] # <<>> /\ \A k \in 1..Len(w[i]) : IsUpper(w[i][k]) \/ IsDigit(w[i][k]))
     /\ Exactly(in, "E_CONF_CTX_MISSING", LAMBDA j: in[j].e.k = "set" /\ HeaderOf(in, j) = 0)

(* ---------- C23 ---------- *)
(* for lines that use variables only as ${<name>} in the data *)
RECURSIVE RefsIn(_)
RefsIn(a) == LET k == Idx(a, 36) IN
             IF k = 0 THEN <<>> ELSE LET e == IdxFrom(a, 125, k) IN <<SubSeq(a, k + 2, e - 1)>> \o RefsIn(From(a, e + 1))
RECURSIVE Apart(_, _)
(* edits that lead from a to b *)
Apart(a, b) == IF a = <<>> THEN Len(b) ELSE IF b = <<>> THEN Len(a)
               ELSE IF a[1] = b[1] THEN Apart(Tail(a), Tail(b))
               ELSE 1 + Min3(Apart(Tail(a), b), Apart(a, Tail(b)), Apart(Tail(a), Tail(b)))
C23Holds(in) ==
  LET use == SelectSeq([j \in 1..Len(in) |-> j], LAMBDA j: InCtx(in, j) /\ in[j].e.var \in {S("exten"), sSame})
      refs == Flat([i \in 1..Len(use) |-> LET r == RefsIn(in[use[i]].e.val) IN [k \in 1..Len(r) |-> [n |-> r[k], f |-> in[use[i]].f]]])
      ctxs == {in[j].e.name : j \in {j \in 1..Len(in) : in[j].e.k = "ctx" /\ Normal(in[j].e.name)}}
      labels == {st.dp.ctxs[p[1]].exts[p[2]].label : p \in {<<i, k>> \in (1..Len(st.dp.ctxs)) \X (1..Len(in)) :
                   k <= Len(st.dp.ctxs[i].exts) /\ Truthy(st.dp.ctxs[i].exts[k].label)}}
      vars == {refs[i].n : i \in 1..Len(refs)}
      ids == ctxs \cup labels \cup vars
      before(a, b) == SeqLess(Lower(a), Lower(b)) \/ (Lower(a) = Lower(b) /\ SeqLess(a, b))
      shorter(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ before(a, b))
      next(a, b, R(_, _)) == R(a, b) /\ ~\E c \in ids : R(a, c) /\ R(c, b)
      near(a, b) == next(a, b, before) \/ next(b, a, before) \/ next(a, b, shorter) \/ next(b, a, shorter)
      up(t) == (\E i \in 1..Len(t) : IsUpper(t[i])) /\ \A i \in 1..Len(t) : ~IsLower(t[i])
      low(t) == (\E i \in 1..Len(t) : IsLower(t[i])) /\ \A i \in 1..Len(t) : ~IsUpper(t[i])
      twins(a, b) == Lower(a) = Lower(b) /\ ((up(a) /\ low(b)) \/ (low(a) /\ up(b)))
      arg(t) == StartsWith(t, S("ARG")) /\ Len(t) > 3 /\ \A i \in 4..Len(t) : IsDigit(t[i])
      alike(a, b) == LET d == Apart(Lower(a), Lower(b)) IN
                     /\ near(a, b) /\ d <= 2 /\ d < Len(a) - 1 /\ d < Len(b) - 1
                     /\ ~twins(a, b) /\ ~(arg(a) /\ arg(b))
      mates(a) == {b \in ids \ {a} : alike(a, b)}
      out == IdentScan([verbose |-> TRUE, distance |-> TRUE], st)
      said == S("  [similar to: ")
      at == {i \in 1..Len(out) : \E k \in 1..Len(out[i]) : StartsWith(From(out[i], k), said)}
      plain(l) == RStrip(SubSeq(l, 3, 34))
      count(n) == Cardinality({i \in 1..Len(refs) : refs[i].n = n})
      files(n) == Cardinality({refs[i].f : i \in {i \in 1..Len(refs) : refs[i].n = n}})
  IN /\ {plain(out[i]) : i \in at} = {a \in ids : mates(a) # {}}
     /\ Cardinality(at) = Cardinality({a \in ids : mates(a) # {}})
     /\ \A i \in at : LET w == SplitAll(SubSeq(out[i], 35 + Len(said), Len(out[i]) - 1), 44)
                      IN {Strip(w[k]) : k \in 1..Len(w)} = mates(plain(out[i])) /\ Len(w) = Cardinality(mates(plain(out[i])))
     /\ IdentStatus([distance |-> TRUE], st) = (IF \E a \in ids : mates(a) # {} THEN 1 ELSE 0)
     \* the listing: a title, the names in order, an empty line; three times
     /\ LET heads == SelectSeq([i \in 1..Len(out) |-> i], LAMBDA i: out[i] # <<>> /\ out[i][1] # 32)
            names(k) == [i \in 1..((IF k < Len(heads) THEN heads[k + 1] ELSE Len(out) + 1) - heads[k] - 2) |-> out[heads[k] + i]]
            sorted(q) == \A i \in 2..Len(q) : ~SeqLess(Lower(Take(q[i], 34)), Lower(Take(q[i - 1], 34)))
        IN /\ Len(heads) = (IF at = {} THEN 3 ELSE 4)
           /\ \A k \in 1..3 : sorted(names(k))
           /\ LET q == names(1) IN {From(q[i], 3) : i \in 1..Len(q)} = ctxs /\ Len(q) = Cardinality(ctxs)
           /\ LET q == names(2) IN {From(q[i], 3) : i \in 1..Len(q)} = labels /\ Len(q) = Cardinality(labels)
           /\ LET q == names(3) IN
              /\ Len(q) = Cardinality(vars)
              /\ {q[i] : i \in 1..Len(q)} = {S("  ") \o PadTo(n, 32) \o S("  [") \o NatDigits(count(n)) \o S(" times in ")
                                             \o NatDigits(files(n)) \o S(" files]") : n \in vars}
=============================================================================
