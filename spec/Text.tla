-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of code points (integers).  A negative integer -k in a
   text stands for entry k of a table of variables (see VarFun): an opaque
   "character", as Asterisk's argument splitters see it.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeMap == [c \in {SubSeq(AsciiStr, i, i) : i \in 1..95} |->
              31 + CHOOSE i \in 1..95 : SubSeq(AsciiStr, i, i) = c]
(* The code points of an ASCII string. *)
S(str) == [i \in 1..Len(str) |-> CodeMap[SubSeq(str, i, i)]]
(* Back to a string, for printing. *)
Show(s) == FoldLeft(LAMBDA acc, c: acc \o (IF c \in 32..126 THEN SubSeq(AsciiStr, c - 31, c - 31) ELSE "?"), "", s)

IsVar(c) == c < 0
HasVar(s) == \E i \in 1..Len(s) : s[i] < 0
HasStr(s) == \E i \in 1..Len(s) : s[i] >= 0

(* White space as Python and its regular expressions know it. *)
WideSpaces == {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
IsWs(c) == \/ c \in 9..13 \/ c \in 28..32 \/ (c > 127 /\ c \in WideSpaces)
IsBlank(c) == c = 32 \/ c = 9
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsIdent(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

From(s, i) == SubSeq(s, i, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
(* The first place of c in s at or after i, 0 if there is none. *)
IdxFrom(s, c, i) ==
  IF \E j \in i..Len(s) : s[j] = c
  THEN CHOOSE j \in i..Len(s) : s[j] = c /\ \A k \in i..(j-1) : s[k] # c
  ELSE 0
Idx(s, c) == IdxFrom(s, c, 1)
LastIdx(s, c) ==
  IF Has(s, c)
  THEN CHOOSE j \in 1..Len(s) : s[j] = c /\ \A k \in (j+1)..Len(s) : s[k] # c
  ELSE 0
StartsWith(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[i] = p[i]
EndsWith(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[Len(s) - Len(p) + i] = p[i]
Occurs(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : \A j \in 1..Len(p) : s[i+j-1] = p[j]

(* Number of leading / trailing elements that satisfy P. *)
LeadN(s, P(_)) ==
  IF \E i \in 1..Len(s) : ~P(s[i])
  THEN (CHOOSE i \in 1..Len(s) : ~P(s[i]) /\ \A k \in 1..(i-1) : P(s[k])) - 1
  ELSE Len(s)
TrailN(s, P(_)) ==
  IF \E i \in 1..Len(s) : ~P(s[i])
  THEN Len(s) - (CHOOSE i \in 1..Len(s) : ~P(s[i]) /\ \A k \in (i+1)..Len(s) : P(s[k]))
  ELSE Len(s)
LStripP(s, P(_)) == From(s, LeadN(s, P) + 1)
RStripP(s, P(_)) == SubSeq(s, 1, Len(s) - TrailN(s, P))
LStrip(s) == LStripP(s, IsWs)
RStrip(s) == RStripP(s, IsWs)
Strip(s) == LStrip(RStrip(s))
LStripB(s) == LStripP(s, IsBlank)
RStripB(s) == RStripP(s, IsBlank)

(* Split at every c. *)
SplitAll(s, c) ==
  LET r == FoldLeft(LAMBDA a, x: IF x = c THEN [d |-> Append(a.d, a.cur), cur |-> <<>>]
                                 ELSE [a EXCEPT !.cur = Append(a.cur, x)],
                    [d |-> <<>>, cur |-> <<>>], s)
  IN Append(r.d, r.cur)
(* Split at the first c: <<s>> or <<before, after>>. *)
Split1(s, c) ==
  LET j == Idx(s, c) IN IF j = 0 THEN <<s>> ELSE <<SubSeq(s, 1, j-1), From(s, j+1)>>
Join(ss, sep) ==
  FoldLeft(LAMBDA a, x: IF a.first THEN [first |-> FALSE, t |-> x]
                        ELSE [first |-> FALSE, t |-> a.t \o sep \o x],
           [first |-> TRUE, t |-> <<>>], ss).t
Flat(ss) == FoldLeft(LAMBDA a, x: a \o x, <<>>, ss)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE NatDigits(n \div 10) \o <<48 + (n % 10)>>
DigitsVal(s) == FoldLeft(LAMBDA a, c: 10 * a + (c - 48), 0, s)
(* Decimal digits without leading zeros. *)
NormDigits(s) == LET n == LeadN(s, LAMBDA c: c = 48) IN IF n = Len(s) THEN <<48>> ELSE From(s, n + 1)
(* Compare normalised digit strings: TRUE iff a >= b. *)
DigitsGeq(a, b) ==
  \/ Len(a) > Len(b)
  \/ Len(a) = Len(b) /\ (a = b \/ \E i \in 1..Len(a) : a[i] > b[i] /\ \A j \in 1..(i-1) : a[j] = b[j])

(* Lexicographic order of integer sequences. *)
SeqLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
  IF \E i \in 1..n : a[i] # b[i]
  THEN LET i == CHOOSE i \in 1..n : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j] IN a[i] < b[i]
  ELSE Len(a) < Len(b)

(* Insertion of x in a sorted sequence (stable), and sorting by an order. *)
InsertBy(sorted, x, L(_,_)) ==
  LET k == IF \E i \in 1..Len(sorted) : L(x, sorted[i])
           THEN CHOOSE i \in 1..Len(sorted) : L(x, sorted[i]) /\ \A j \in 1..(i-1) : ~L(x, sorted[j])
           ELSE Len(sorted) + 1
  IN SubSeq(sorted, 1, k - 1) \o <<x>> \o From(sorted, k)
SortBy(seq, L(_,_)) == FoldLeft(LAMBDA acc, x: InsertBy(acc, x, L), <<>>, seq)

(* a set of texts, sorted *)
SortedTexts(T) == SetToSortSeq(T, SeqLess)

SeqHas(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
CountOf(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
SeqSet(seq) == {seq[i] : i \in 1..Len(seq)}
(* Equal as bags. *)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SeqSet(a) : CountOf(a, x) = CountOf(b, x)

(* UTF-8: bytes -> [bad, out].  Python's strict decoder. *)
Utf8Step(a, b) ==
  IF a.bad THEN a
  ELSE IF a.need = 0 THEN
    IF b < 128 THEN [a EXCEPT !.out = Append(a.out, b)]
    ELSE IF b \in 194..223 THEN [a EXCEPT !.need = 1, !.acc = b - 192, !.lo = 128, !.hi = 191]
    ELSE IF b \in 224..239 THEN [a EXCEPT !.need = 2, !.acc = b - 224,
             !.lo = IF b = 224 THEN 160 ELSE 128, !.hi = IF b = 237 THEN 159 ELSE 191]
    ELSE IF b \in 240..244 THEN [a EXCEPT !.need = 3, !.acc = b - 240,
             !.lo = IF b = 240 THEN 144 ELSE 128, !.hi = IF b = 244 THEN 143 ELSE 191]
    ELSE [a EXCEPT !.bad = TRUE]
  ELSE IF b \in a.lo .. a.hi THEN
    LET v == a.acc * 64 + (b - 128) IN
    IF a.need = 1 THEN [a EXCEPT !.need = 0, !.out = Append(a.out, v)]
    ELSE [a EXCEPT !.need = a.need - 1, !.acc = v, !.lo = 128, !.hi = 191]
  ELSE [a EXCEPT !.bad = TRUE]
Utf8Decode(bs) ==
  LET r == FoldLeft(Utf8Step, [bad |-> FALSE, out |-> <<>>, need |-> 0, acc |-> 0, lo |-> 0, hi |-> 0], bs)
  IN [bad |-> r.bad \/ r.need > 0, out |-> r.out]
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Encode(s) ==
  IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE Flat([i \in 1..Len(s) |-> Utf8Char(s[i])])

(* Windows-1252; its five undefined bytes become U+FFFD. *)
Cp1252Hi == <<8364, 65533, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 65533, 381, 65533,
              65533, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 65533, 382, 376>>
Cp1252(bs) == [i \in 1..Len(bs) |-> IF bs[i] \in 128..159 THEN Cp1252Hi[bs[i] - 127] ELSE bs[i]]

DecodeLine(bs) ==
  IF \A i \in 1..Len(bs) : bs[i] < 128 THEN [bad |-> FALSE, out |-> bs]
  ELSE LET u == Utf8Decode(bs) IN IF u.bad THEN [bad |-> TRUE, out |-> Cp1252(bs)] ELSE u

(* POSIX path helpers used for #include. *)
DirName(p) == LET j == LastIdx(p, 47) IN
  IF j = 0 THEN <<>>
  ELSE LET head == SubSeq(p, 1, j) IN
       IF \A i \in 1..Len(head) : head[i] = 47 THEN head ELSE RStripP(head, LAMBDA c: c = 47)
PathJoin(d, r) ==
  IF Len(r) > 0 /\ r[1] = 47 THEN r
  ELSE IF d = <<>> \/ d[Len(d)] = 47 THEN d \o r
  ELSE d \o <<47>> \o r
NormPath(p) ==
  LET abs == Len(p) > 0 /\ p[1] = 47
      dd == <<46, 46>>
      comps == FoldLeft(LAMBDA a, x:
                 IF x = <<>> \/ x = <<46>> THEN a
                 ELSE IF x # dd \/ (~abs /\ a = <<>>) \/ (a # <<>> /\ a[Len(a)] = dd) THEN Append(a, x)
                 ELSE IF a # <<>> THEN SubSeq(a, 1, Len(a) - 1) ELSE a,
                 <<>>, SplitAll(p, 47))
      body == Join(comps, <<47>>)
  IN IF abs THEN <<47>> \o body ELSE IF body = <<>> THEN <<46>> ELSE body
(* The path with the symbolic links followed.  ls: <<[name, to]>>, where to is
   relative to the directory that the link is in. *)
RECURSIVE Follow(_, _, _, _)
Follow(ls, done, todo, fuel) ==
  IF todo = <<>> \/ fuel = 0 THEN done \o todo
  ELSE LET x == todo[1]
           rest == Tail(todo)
           at == Join(Append(done, x), <<47>>)
           hit == SelectSeq(ls, LAMBDA k: k.name = at)
       IN IF x = <<>> \/ x = <<46>> THEN Follow(ls, done, rest, fuel)
          ELSE IF x = <<46, 46>>
          THEN Follow(ls, IF done = <<>> \/ done[Len(done)] = x THEN Append(done, x) ELSE SubSeq(done, 1, Len(done) - 1), rest, fuel)
          ELSE IF hit # <<>> THEN Follow(ls, done, SplitAll(hit[1].to, 47) \o rest, fuel - 1)
          ELSE Follow(ls, Append(done, x), rest, fuel)
RealPath(ls, p) ==
  IF ls = <<>> \/ (Len(p) > 0 /\ p[1] = 47) THEN NormPath(p)
  ELSE NormPath(Join(Follow(ls, <<>>, SplitAll(p, 47), 40), <<47>>))
=============================================================================
