--------------------------------- MODULE Web ---------------------------------
(* What the web service (web/wsgi.py) does with each request, step by step:
   the middleware, the routes, the limit on the size, the body, the lines of
   the posted file, the answer.  A request is
     path, method
     len      the announced length, -1 if there is none
     threads  the server runs requests in several threads
     body     "ok" or how it cannot be used
     ev       what is on the lines of the posted file:
                "bad"   an unknown application     "plain" nothing special
                "exec"  a command to be run        "self"  an include of itself
                "file" "try"  an include of a file that exists on the server
                "bg" "BG"     two spellings; the first seen is the right one
   An answer is a status (500 also stands for any other failure while the body
   is looked at), what was sent, and the findings.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Requests, MaxRequests

VARIABLES reg, cur, pc, pos, opened, ran, read, hist
vars == <<reg, cur, pc, pos, opened, ran, read, hist>>

Limit == 65536
Posted == "extensions.conf"
Empty == [msgs |-> <<>>, bg |-> ""]
None == [path |-> "", method |-> "", len |-> -1, threads |-> FALSE, body |-> "ok", ev |-> <<>>]
Routes == {"/", "/healthz", "/dialplan-check"}
RouteOf(path) == CASE path = "/healthz/" -> "/healthz" [] path = "/dialplan-check/" -> "/dialplan-check" [] OTHER -> path
MethodOf(route) == IF route = "/dialplan-check" THEN "POST" ELSE "GET"

Init == reg = Empty /\ cur = None /\ pc = "idle" /\ pos = 0 /\ opened = {} /\ ran = {} /\ read = FALSE /\ hist = <<>>

Respond(status, sent, msgs) ==
  /\ hist' = Append(hist, [req |-> cur, status |-> status, sent |-> sent, msgs |-> msgs, opened |-> opened, ran |-> ran, read |-> read])
  /\ pc' = "idle" /\ cur' = None /\ pos' = 0 /\ opened' = {} /\ ran' = {} /\ read' = FALSE
Refuse(status) == Respond(status, "nothing", <<>>)

Receive ==
  /\ pc = "idle" /\ Len(hist) < MaxRequests
  /\ \E r \in Requests : cur' = r
  /\ pc' = "middleware"
  /\ UNCHANGED <<reg, pos, opened, ran, read, hist>>
Threads ==
  /\ pc = "middleware"
  /\ UNCHANGED reg
  /\ IF cur.threads THEN Refuse(400) ELSE pc' = "route" /\ UNCHANGED <<cur, pos, opened, ran, read, hist>>
Route ==
  /\ pc = "route"
  /\ UNCHANGED reg
  /\ LET r == RouteOf(cur.path) IN
     IF r \notin Routes THEN Refuse(404)
     ELSE IF cur.method # MethodOf(r) THEN Refuse(405)
     ELSE IF r = "/" THEN Respond(200, "index", <<>>)
     ELSE IF r = "/healthz" THEN Respond(200, "health", <<>>)
     ELSE pc' = "size" /\ UNCHANGED <<cur, pos, opened, ran, read, hist>>
Size ==
  /\ pc = "size"
  /\ UNCHANGED reg
  /\ IF cur.len > Limit THEN Refuse(413) ELSE pc' = "body" /\ UNCHANGED <<cur, pos, opened, ran, read, hist>>
Body ==
  /\ pc = "body"
  /\ reg' = Empty
  /\ read' = TRUE
  /\ IF cur.body = "ok" THEN pc' = "lines" /\ pos' = 1 /\ opened' = {Posted} ELSE pc' = "fail" /\ UNCHANGED <<pos, opened>>
  /\ UNCHANGED <<cur, ran, hist>>
Fail == pc = "fail" /\ UNCHANGED reg /\ Refuse(500)
Ev == cur.ev[pos]
Say(c) == [reg EXCEPT !.msgs = Append(@, <<pos, c>>)]
Spelling == IF Ev = "bg" THEN "Background" ELSE "BackGround"
Line ==
  /\ pc = "lines" /\ pos <= Len(cur.ev)
  /\ IF Ev \in {"file", "try"} THEN UNCHANGED reg /\ Refuse(400)
     ELSE /\ reg' = CASE Ev = "bad" -> Say("E_APP_MISSING")
                      [] Ev = "exec" -> Say("W_PP_EXEC")
                      [] Ev = "self" -> Say("E_PP_INCLUDE_LOOP")
                      [] Ev = "plain" -> reg
                      [] reg.bg = "" -> [reg EXCEPT !.bg = Spelling]
                      [] reg.bg # Spelling -> Say("W_APP_BAD_CASE")
                      [] OTHER -> reg
          /\ pos' = pos + 1
          /\ UNCHANGED <<cur, pc, opened, ran, read, hist>>
Answer ==
  /\ pc = "lines" /\ pos > Len(cur.ev)
  /\ reg' = [reg EXCEPT !.msgs = <<>>]
  /\ Respond(200, "findings", reg.msgs)
Next == Receive \/ Threads \/ Route \/ Size \/ Body \/ Fail \/ Line \/ Answer

(* ---- what should hold, said of the requests and answers only ---- *)
IsCheck(r) == RouteOf(r.path) = "/dialplan-check" /\ r.method = "POST" /\ ~r.threads /\ r.len <= Limit
Usable(r) == IsCheck(r) /\ r.body = "ok" /\ ~\E i \in 1..Len(r.ev) : r.ev[i] \in {"file", "try"}
(* only a usable request is answered with findings, and a page only if asked for *)
SentRight == \A i \in 1..Len(hist) : LET h == hist[i] IN
  /\ (h.sent = "findings") <=> Usable(h.req)
  /\ (h.sent = "index") <=> (h.req.path = "/" /\ h.req.method = "GET" /\ ~h.req.threads)
  /\ (h.sent = "health") <=> (h.req.path \in {"/healthz", "/healthz/"} /\ h.req.method = "GET" /\ ~h.req.threads)
  /\ (h.status = 200) <=> (h.sent # "nothing")
  /\ h.sent # "findings" => h.msgs = <<>>
(* equal requests, equal answers *)
Alike == \A i, j \in 1..Len(hist) : hist[i].req = hist[j].req => hist[i] = hist[j]
(* nothing of the server is read or run *)
Contained == opened \subseteq {Posted} /\ ran = {} /\ \A i \in 1..Len(hist) : hist[i].opened \subseteq {Posted} /\ hist[i].ran = {}
(* the body of a request that is turned away is left alone *)
Unread == \A i \in 1..Len(hist) : hist[i].read <=> IsCheck(hist[i].req)
(* every finding is of a line that asks for it *)
Why(ev, l, c) == CASE c = "E_APP_MISSING" -> ev[l] = "bad" [] c = "W_PP_EXEC" -> ev[l] = "exec" [] c = "E_PP_INCLUDE_LOOP" -> ev[l] = "self"
                   [] OTHER -> ev[l] \in {"bg", "BG"} /\ \E k \in 1..(l - 1) : ev[k] \in {"bg", "BG"} \ {ev[l]}
Founded == \A i \in 1..Len(hist) : LET h == hist[i] IN
  /\ \A n \in 1..Len(h.msgs) : Why(h.req.ev, h.msgs[n][1], h.msgs[n][2])
  /\ Usable(h.req) => \A l \in 1..Len(h.req.ev) : h.req.ev[l] \in {"bad", "exec", "self"} => \E n \in 1..Len(h.msgs) : h.msgs[n][1] = l
=============================================================================
