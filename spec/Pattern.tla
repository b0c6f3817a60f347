------------------------------- MODULE Pattern -------------------------------
(* Extension patterns.  A parsed pattern is [p, e, ok]: p is 1 for a pattern
   (raw text starts with "_") and 0 for a literal; e is a sequence of elements;
   an element is <<k>> for a contiguous set (k = 256*size + first byte), or
   <<k, b1, ..., bn>> for a set with gaps, or one of the three specials.     *)
EXTENDS Text

DotE == <<98304>>     \* 0x18000: one or more of anything
BangE == <<163840>>   \* 0x28000: zero or more of anything
EndE == <<196608>>    \* 0x30000: end of a pattern
BadE == <<262144>>    \* 0x40000: error in set

(* The members of a bracket set, as the list of characters between [ and ]. *)
RECURSIVE SetMembers(_)
SetMembers(l) ==
  IF Len(l) >= 3
  THEN IF l[2] = 45
       THEN (IF l[1] <= l[3] THEN l[1]..l[3] ELSE l[3]..l[1]) \cup SetMembers(From(l, 4))
       ELSE {l[1]} \cup SetMembers(From(l, 2))
  ELSE {l[i] : i \in 1..Len(l)}
SortedSet(T) == IF T = {} THEN <<>> ELSE SetToSortSeq(T, LAMBDA a, b: a < b)
SetElem(T) ==
  LET q == SortedSet(T)
      k == Len(q) * 256 + q[1]    \* 0x100 * size | first: disjoint bits, as first < 256
  IN IF q[Len(q)] - q[1] = Len(q) - 1 THEN <<k>> ELSE <<k>> \o q

(* The elements of the text after the underscore. *)
PatElems(bs) ==
  LET step(a, i) ==
        IF a.skip >= i \/ ~a.ok THEN a
        ELSE LET c == bs[i] IN
             IF c = 45 THEN a
             ELSE IF c \in {88, 120} THEN [a EXCEPT !.e = Append(a.e, <<2608>>)]
             ELSE IF c \in {90, 122} THEN [a EXCEPT !.e = Append(a.e, <<2353>>)]
             ELSE IF c \in {78, 110} THEN [a EXCEPT !.e = Append(a.e, <<2098>>)]
             ELSE IF c = 46 THEN [a EXCEPT !.e = Append(a.e, DotE)]
             ELSE IF c = 33 THEN [a EXCEPT !.e = Append(a.e, BangE)]
             ELSE IF c = 91
             THEN LET j == IdxFrom(bs, 93, i + 1) IN
                  IF j = 0 \/ j = i + 1 THEN [a EXCEPT !.ok = FALSE, !.e = Append(a.e, BadE)]
                  ELSE [a EXCEPT !.e = Append(a.e, SetElem(SetMembers(SubSeq(bs, i + 1, j - 1)))), !.skip = j]
             ELSE [a EXCEPT !.e = Append(a.e, <<256 + c>>)]
  IN FoldLeft(step, [e |-> <<>>, skip |-> 0, ok |-> TRUE], [i \in 1..Len(bs) |-> i])

ParsePat(raw) ==
  LET bs == Utf8Encode(raw) IN
  IF bs[1] = 95
  THEN LET r == PatElems(Tail(bs)) IN
       [p |-> 1, e |-> IF r.ok THEN Append(r.e, EndE) ELSE r.e, ok |-> r.ok /\ r.e # <<>>]
  ELSE [p |-> 0, ok |-> TRUE,
        e |-> LET k == SelectSeq(bs, LAMBDA c: c # 45) IN [i \in 1..Len(k) |-> <<256 + k[i]>>]]

PatEq(a, b) == a.p = b.p /\ a.e = b.e
(* Asterisk order: literals before patterns, then element by element. *)
ElemLess(x, y) == SeqLess(x, y)
PatLess(a, b) ==
  IF a.p # b.p THEN a.p < b.p
  ELSE LET n == IF Len(a.e) < Len(b.e) THEN Len(a.e) ELSE Len(b.e) IN
       IF \E i \in 1..n : a.e[i] # b.e[i]
       THEN LET i == CHOOSE i \in 1..n : a.e[i] # b.e[i] /\ \A j \in 1..(i-1) : a.e[j] = b.e[j]
            IN ElemLess(a.e[i], b.e[i])
       ELSE Len(a.e) < Len(b.e)

(* ---- meaning ---- *)
Members(x) == IF Len(x) > 1 THEN {x[i] : i \in 2..Len(x)} ELSE (x[1] % 256) .. ((x[1] % 256) + (x[1] \div 256) - 1)
NoDash(s) == SelectSeq(s, LAMBDA c: c # 45)
(* Does the pattern accept the number?  Declarative: element i accepts byte i;
   "." needs at least one more byte, "!" takes any rest.                     *)
Accepts(pt, ext) ==
  LET bs == NoDash(Utf8Encode(ext))
      e == IF pt.p = 1 THEN SubSeq(pt.e, 1, Len(pt.e) - 1) ELSE pt.e
      wild == {i \in 1..Len(e) : e[i] = DotE \/ e[i] = BangE}
      n == IF wild = {} THEN Len(e) ELSE (CHOOSE i \in wild : \A j \in wild : i <= j) - 1
  IN /\ IF wild = {} THEN Len(bs) = n
        ELSE IF e[n+1] = DotE THEN Len(bs) > n ELSE Len(bs) >= n
     /\ \A i \in 1..n : bs[i] \in Members(e[i])
(* The same, walking over the number as an automaton would (used to cross-check). *)
AcceptsWalk(pt, ext) ==
  LET bs == NoDash(Utf8Encode(ext))
      r == FoldLeft(LAMBDA a, b:
             IF a.st # "go" THEN a
             ELSE IF a.i > Len(pt.e) THEN [a EXCEPT !.st = "no"]
             ELSE IF pt.e[a.i] \in {DotE, BangE} THEN [a EXCEPT !.st = "yes"]
             ELSE IF pt.e[a.i] = EndE THEN [a EXCEPT !.st = "no"]
             ELSE IF b \in Members(pt.e[a.i]) THEN [a EXCEPT !.i = a.i + 1]
             ELSE [a EXCEPT !.st = "no"],
             [st |-> "go", i |-> 1], bs)
  IN r.st = "yes" \/ (r.st = "go" /\ (r.i > Len(pt.e) \/ pt.e[r.i] \in {BangE, EndE}))

(* ---- canonical form ---- *)
(* Characters that would mean something else outside brackets. *)
SpecialC == {33, 45, 46, 78, 88, 90, 110, 120, 122}
(* Maximal runs of 3 or more consecutive bytes become ranges. *)
RECURSIVE Runs(_)
Runs(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET n == CHOOSE n \in 1..Len(q) : /\ \A i \in 1..n : q[i] = q[1] + i - 1
                                         /\ (n = Len(q) \/ q[n+1] # q[1] + n)
       IN IF n >= 3 THEN <<<<q[1], q[n]>>>> \o Runs(From(q, n + 1))
          ELSE <<<<q[1]>>>> \o Runs(Tail(q))
RunKey(r) == IF r[1] \in 48..57 \/ r[1] \in 65..90 \/ r[1] \in 97..122 THEN r[1] ELSE r[1] + 256
RunText(r) ==
  IF Len(r) = 1 THEN r
  ELSE IF r[2] - r[1] < 3 /\ r[1] # 92 THEN [i \in 1..(r[2] - r[1] + 1) |-> r[1] + i - 1]
  ELSE <<r[1], 45, r[2]>>
ContigText(k) ==
  LET n == k \div 256 f == k % 256 IN
  IF n = 2 THEN <<91, f, f + 1, 93>>
  ELSE IF n = 3 /\ f # 92 THEN <<91, f, f + 1, f + 2, 93>>
  ELSE <<91, f, 45, f + n - 1, 93>>
GapText(q) ==
  \* a closing bracket can only be in a set as the inside of a range, and stays there
  LET dash == SeqHas(q, 45)
      rest == SelectSeq(q, LAMBDA c: c # 45)
      runs == SortBy(Runs(rest), LAMBDA a, b: RunKey(a) < RunKey(b))
  IN <<91>> \o Flat([i \in 1..Len(runs) |-> RunText(runs[i])])
     \o (IF dash THEN <<45>> ELSE <<>>) \o <<93>>
CanonElem(x) ==
  IF Len(x) > 1 THEN GapText(Tail(x))
  ELSE IF x[1] < 512 THEN (IF x[1] % 256 \in SpecialC THEN <<91, x[1] % 256, 93>> ELSE <<x[1] % 256>>)
  ELSE IF x[1] = 2608 THEN <<88>> ELSE IF x[1] = 2353 THEN <<90>> ELSE IF x[1] = 2098 THEN <<78>>
  ELSE IF x = DotE THEN <<46>> ELSE IF x = BangE THEN <<33>>
  ELSE ContigText(x[1])
(* The canonical form, as bytes. *)
Canonical(pt) ==
  IF pt.p = 0 THEN [i \in 1..Len(pt.e) |-> pt.e[i][1] % 256]
  ELSE LET e == SubSeq(pt.e, 1, Len(pt.e) - 1) IN
       IF \A i \in 1..Len(e) : e[i][1] < 512 THEN [i \in 1..Len(e) |-> e[i][1] % 256]
       ELSE <<95>> \o Flat([i \in 1..Len(e) |-> CanonElem(e[i])])

(* The text without dashes (and stray brackets), keeping bracket groups. *)
WithoutDashes(raw) ==
  LET step(a, i) ==
        IF a.skip >= i THEN a
        ELSE LET c == raw[i] IN
             IF c = 91 THEN
               LET j == IF i + 2 <= Len(raw) THEN IdxFrom(raw, 93, i + 2) ELSE 0
               IN IF j # 0 THEN [out |-> a.out \o SubSeq(raw, i, j), skip |-> j] ELSE a
             ELSE IF c = 93 \/ c = 45 THEN a
             ELSE [a EXCEPT !.out = Append(a.out, c)]
  IN FoldLeft(step, [out |-> <<>>, skip |-> 0], [i \in 1..Len(raw) |-> i]).out
IsCanonical(raw, pt) == Utf8Encode(WithoutDashes(raw)) = Canonical(pt)

(* An example number that the pattern accepts, as bytes. *)
Example(pt) ==
  Flat([i \in 1..Len(pt.e) |->
        IF pt.e[i] = DotE THEN S("0-123456789-333")
        ELSE IF pt.e[i] = BangE THEN S("-123456789-333")
        ELSE IF pt.e[i] = EndE THEN <<>>
        ELSE \* dashes are skipped in numbers: take another member of the set
             IF pt.e[i][1] % 256 = 45 /\ pt.e[i][1] >= 512
             THEN <<IF Len(pt.e[i]) > 1 THEN pt.e[i][3] ELSE 46>>
        ELSE <<pt.e[i][1] % 256>>])
=============================================================================
