------------------------------- MODULE Session -------------------------------
(* The web service (web/wsgi.py): one process that answers requests one after
   another, on top of registries that live as long as the process.  What
   matters of a request is what it does to the registries, in order:
     "bad"   a finding
     "bg"    the application spelled Background \ the first spelling seen is
     "BG"    the same, spelled BackGround       / right, the other one is not
     "plain" a line without any of that
     "inc"   an include: the request ends with an error right there
   and whether its body can be used at all: "ok", "big" and "threads" are
   turned away before the service looks at it, "nofiles" and "notext" fail
   after that.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Requests,     \* [body, ev]
          MaxRequests,
          Careful       \* whether the registries are emptied for each request

VARIABLES reg, cur, pos, hist
vars == <<reg, cur, pos, hist>>

Empty == [msgs |-> <<>>, bg |-> ""]
Idle == pos = 0
None == [body |-> "ok", ev |-> <<>>]
Refused == [refused |-> TRUE, msgs |-> <<>>]
Answered(ms) == [refused |-> FALSE, msgs |-> ms]
Me == Len(hist) + 1
Remember(a) == hist' = Append(hist, [req |-> cur, answer |-> a])

Init == reg = Empty /\ cur = None /\ pos = 0 /\ hist = <<>>

TurnAway ==
  /\ Idle /\ Len(hist) < MaxRequests
  /\ \E r \in Requests : /\ r.body \in {"big", "threads"}
                         /\ hist' = Append(hist, [req |-> r, answer |-> Refused])
  /\ UNCHANGED <<reg, cur, pos>>
Accept ==
  /\ Idle /\ Len(hist) < MaxRequests
  /\ \E r \in Requests : r.body \notin {"big", "threads"} /\ cur' = r
  /\ reg' = IF Careful THEN Empty ELSE reg
  /\ pos' = 1
  /\ UNCHANGED hist
Unusable ==
  /\ pos = 1 /\ cur.body # "ok"
  /\ Remember(Refused) /\ pos' = 0 /\ cur' = None
  /\ UNCHANGED reg
Ev == cur.ev[pos]
(* line pos of the request has a finding of class c *)
Say(r, c) == [r EXCEPT !.msgs = Append(@, [by |-> Me, l |-> pos, c |-> c])]
Spelling == IF Ev = "bg" THEN "Background" ELSE "BackGround"
Line ==
  /\ pos > 0 /\ cur.body = "ok" /\ pos <= Len(cur.ev) /\ Ev # "inc"
  /\ reg' = CASE Ev = "bad" -> Say(reg, "E_APP_MISSING")
              [] Ev = "plain" -> reg
              [] reg.bg = "" -> [reg EXCEPT !.bg = Spelling]
              [] reg.bg # Spelling -> Say(reg, "W_APP_BAD_CASE")
              [] OTHER -> reg
  /\ pos' = pos + 1
  /\ UNCHANGED <<cur, hist>>
IncludeRefused ==
  /\ pos > 0 /\ cur.body = "ok" /\ pos <= Len(cur.ev) /\ Ev = "inc"
  /\ Remember(Refused) /\ pos' = 0 /\ cur' = None
  /\ UNCHANGED reg
Answer ==
  /\ pos > 0 /\ cur.body = "ok" /\ pos > Len(cur.ev)
  /\ Remember(Answered(reg.msgs))
  /\ reg' = [reg EXCEPT !.msgs = <<>>]
  /\ pos' = 0 /\ cur' = None
Next == TurnAway \/ Accept \/ Unusable \/ Line \/ IncludeRefused \/ Answer

(* ---- what a request is answered by a process that has seen nothing ---- *)
FirstBg(ev) == LET is == {i \in 1..Len(ev) : ev[i] \in {"bg", "BG"}} IN
               IF is = {} THEN "" ELSE ev[CHOOSE i \in is : \A j \in is : i <= j]
Class(ev, i) == CASE ev[i] = "bad" -> "E_APP_MISSING"
                  [] ev[i] \in {"bg", "BG"} /\ ev[i] # FirstBg(ev) -> "W_APP_BAD_CASE"
                  [] OTHER -> ""
Found(ev) == [i \in {i \in 1..Len(ev) : Class(ev, i) # ""} |-> Class(ev, i)]
Fresh(r) == IF r.body # "ok" \/ \E i \in 1..Len(r.ev) : r.ev[i] = "inc" THEN [refused |-> TRUE, found |-> <<>>]
            ELSE [refused |-> FALSE, found |-> Found(r.ev)]
Independent ==
  \A i \in 1..Len(hist) :
    LET a == hist[i].answer f == Fresh(hist[i].req) IN
    /\ a.refused = f.refused
    /\ ~a.refused => /\ {<<m.l, m.c>> : m \in {a.msgs[n] : n \in 1..Len(a.msgs)}} = {<<l, f.found[l]>> : l \in DOMAIN f.found}
                     /\ Len(a.msgs) = Cardinality(DOMAIN f.found)
OwnMessages == \A i \in 1..Len(hist) : \A n \in 1..Len(hist[i].answer.msgs) : hist[i].answer.msgs[n].by = i
=============================================================================
