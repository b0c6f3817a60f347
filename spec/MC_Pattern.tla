----------------------------- MODULE MC_Pattern ------------------------------
(* Every pattern over a small alphabet, one character at a time.  The meaning
   of a pattern is defined a second time, straight from its text, and the
   properties C10 (order), C11 and C12 are checked for all of them.  Each
   pattern is printed with what the specification says about it, to be
   replayed on the real code.                                                *)
EXTENDS Pattern, Json, IOUtils

CONSTANTS Alphabet, MaxLen
VARIABLES raw,
          env    \* fixed: numbers and patterns to compare with (a variable, to be computed once)

EnvOf(in) ==
  LET pts == [i \in 1..Len(in.others) |-> ParsePat(in.others[i])] IN
  [given |-> in.pats, numbers |-> in.numbers, others |-> in.others, pts |-> pts,
   canon |-> [i \in 1..Len(pts) |-> IF pts[i].ok THEN Canonical(pts[i]) ELSE <<>>],
   bare |-> [i \in 1..Len(pts) |-> SelectSeq(pts[i].e, LAMBDA x: x # EndE)],
   less |-> {<<i, j>> \in (1..Len(in.others)) \X (1..Len(in.others)) :
               pts[i].ok /\ pts[j].ok /\ PatLess(pts[i], pts[j])}]
Numbers == env.numbers
Others == env.others
OtherPts == env.pts
OtherLess == env.less   \* the pairs of others in order

(* ---- the meaning, from the text ---- *)
RECURSIVE SetHas(_, _), Match(_, _)
(* does the set text (between the brackets) hold byte c? *)
SetHas(t, c) ==
  IF t = <<>> THEN FALSE
  ELSE IF Len(t) >= 3 /\ t[2] = 45
  THEN (c >= t[1] /\ c <= t[3]) \/ (c >= t[3] /\ c <= t[1]) \/ SetHas(From(t, 4), c)
  ELSE c = t[1] \/ SetHas(Tail(t), c)
(* does the rest p of a pattern accept the rest s of a number? *)
Match(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE LET h == p[1] IN
       IF h = 45 THEN Match(Tail(p), s)
       ELSE IF h = 46 THEN s # <<>>
       ELSE IF h = 33 THEN TRUE
       ELSE IF s = <<>> THEN FALSE
       ELSE IF h = 91
       THEN LET j == Idx(p, 93) IN SetHas(SubSeq(p, 2, j - 1), s[1]) /\ Match(From(p, j + 1), Tail(s))
       ELSE /\ IF h \in {88, 120} THEN s[1] \in 48..57
               ELSE IF h \in {90, 122} THEN s[1] \in 49..57
               ELSE IF h \in {78, 110} THEN s[1] \in 50..57
               ELSE s[1] = h
            /\ Match(Tail(p), Tail(s))
Meaning(r, num) ==
  LET s == NoDash(num) IN
  IF r[1] = 95 THEN Match(Tail(r), s) ELSE NoDash(r) = s

(* every bracket is closed and not empty, and there is something to match *)
RECURSIVE SetsOk(_)
SetsOk(p) ==
  LET i == Idx(p, 91) IN
  IF i = 0 THEN TRUE
  ELSE LET j == IdxFrom(p, 93, i + 1) IN j > i + 1 /\ SetsOk(From(p, j + 1))
TextValid(r) == r[1] # 95 \/ (SetsOk(Tail(r)) /\ NoDash(Tail(r)) # <<>>)

(* ---- the properties, for the pattern in raw ---- *)
Pt == ParsePat(raw)
(* outside the domain of C11: a literal dash or leading underscore that only a set can express *)
Odd == Pt.p = 1 /\ (\A i \in 1..(Len(Pt.e) - 1) : Pt.e[i][1] < 512)
       /\ (\E i \in 1..(Len(Pt.e) - 1) : Pt.e[i][1] = 256 + 45 \/ (i = 1 /\ Pt.e[i][1] = 256 + 95))
(* the domain of C11: brackets only as sets, and no opening one within a set *)
Bracketed(r) ==
  LET n == FoldLeft(LAMBDA a, c: IF a > 1 THEN a ELSE IF c = 91 THEN a + 1
                                 ELSE IF c = 93 THEN (IF a = 1 THEN 0 ELSE 2) ELSE a, 0, r)
  IN n = 0
Plainly == IF raw[1] = 95 THEN Bracketed(raw) ELSE ~Has(raw, 91) /\ ~Has(raw, 93)
ValidAgree == raw # <<>> => (Pt.ok <=> TextValid(raw))
MeaningAgree == raw # <<>> /\ Pt.ok =>
  \A i \in 1..Len(Numbers) : /\ Accepts(Pt, Numbers[i]) <=> Meaning(raw, Numbers[i])
                             /\ Accepts(Pt, Numbers[i]) <=> AcceptsWalk(Pt, Numbers[i])
CanonSound == raw # <<>> /\ Pt.ok /\ ~Odd /\ Plainly =>
  LET c == Canonical(Pt) cp == ParsePat(c) IN
  IF c = <<>> THEN Pt.p = 0
  ELSE /\ cp.ok
       /\ IsCanonical(c, cp)
       /\ Canonical(cp) = c
       /\ SelectSeq(cp.e, LAMBDA x: x # EndE) = SelectSeq(Pt.e, LAMBDA x: x # EndE)
       /\ \A i \in 1..Len(Numbers) : Accepts(cp, Numbers[i]) <=> Accepts(Pt, Numbers[i])
(* a set of only a dash accepts nothing *)
DashOnly == Pt.p = 1 /\ \E i \in 1..Len(Pt.e) : Pt.e[i] = <<256 + 45>>
ExampleOk == raw # <<>> /\ Pt.ok /\ ~DashOnly => Accepts(Pt, Example(Pt))
(* same elements, same canonical form *)
CanonUnique ==
  raw # <<>> /\ Pt.ok /\ ~Odd =>
  LET bare == SelectSeq(Pt.e, LAMBDA x: x # EndE)
      canon == Canonical(Pt)
  IN \A i \in 1..Len(Others) : OtherPts[i].ok => ((canon = env.canon[i]) <=> (bare = env.bare[i]))
(* the order is total and strict *)
OrderTotal ==
  raw # <<>> /\ Pt.ok =>
  LET pt == Pt
      below == {i \in 1..Len(Others) : PatLess(OtherPts[i], pt)}
      above == {i \in 1..Len(Others) : PatLess(pt, OtherPts[i])}
      equal == {i \in 1..Len(Others) : PatEq(pt, OtherPts[i])}
  IN /\ below \cup above \cup equal = 1..Len(Others)
     /\ below \cap above = {} /\ below \cap equal = {} /\ above \cap equal = {}
     /\ \A p \in OtherLess : (p[1] \in above => p[2] \in above) /\ (p[2] \in below => p[1] \in below)
Accepted == {i \in 1..Len(Numbers) : Accepts(Pt, Numbers[i])}
OrderOf == [i \in 1..Len(Others) |-> LET b == OtherPts[i] IN
             IF ~b.ok THEN 9 ELSE IF PatEq(Pt, b) THEN 0 ELSE IF PatLess(Pt, b) THEN 1 ELSE 2]
Printed ==
  raw # <<>> =>
  PrintT("PAT " \o ToJson(
    IF Pt.ok THEN [raw |-> raw, valid |-> TRUE, canon |-> Canonical(Pt), iscanon |-> IsCanonical(raw, Pt),
                   example |-> Example(Pt), acc |-> SetToSortSeq(Accepted, LAMBDA a, b: a < b), order |-> OrderOf]
    ELSE [raw |-> raw, valid |-> FALSE]))

Init == /\ env = EnvOf(JsonDeserialize(IOEnv.PAT_INPUT))
        /\ raw \in {<<>>, <<95>>}
Next == /\ Len(raw) < MaxLen + (IF raw # <<>> /\ raw[1] = 95 THEN 1 ELSE 0)
        /\ \E c \in Alphabet : raw' = Append(raw, c)
        /\ UNCHANGED env
View == raw

(* or only the given ones *)
InitGiven == LET In == JsonDeserialize(IOEnv.PAT_INPUT) IN
  /\ env = EnvOf(In)
  /\ raw = <<>>
NextGiven == /\ raw = <<>>
             /\ \E i \in 1..Len(env.given) : raw' = env.given[i]
             /\ UNCHANGED env

(* alphabets; the first ones do not hold the underscore *)
AlphaA == {49, 50, 88, 91, 93, 45, 46, 33, 97}          \* 1 2 X [ ] - . ! a
AlphaB == {91, 93, 48, 50, 51, 57, 45}                  \* [ ] 0 2 3 9 -
AlphaC == {78, 90, 120, 42, 35, 43, 91, 93, 45, 105}    \* N Z x * # + [ ] - i
=============================================================================
