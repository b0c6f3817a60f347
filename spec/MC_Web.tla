------------------------------- MODULE MC_Web -------------------------------
EXTENDS Web, Json
Check == [None EXCEPT !.path = "/dialplan-check", !.method = "POST", !.len = 400]
AllRequests ==
  {[None EXCEPT !.path = p, !.method = m, !.len = n] :
     p \in {"/", "/healthz", "/healthz/", "/dialplan-check", "/dialplan-check/", "/other", "/dialplan-check/x"}, m \in {"GET", "POST"}, n \in {-1}}
  \cup {[None EXCEPT !.path = p, !.method = "GET", !.threads = TRUE] : p \in {"/", "/healthz", "/other"}}
  \cup {[Check EXCEPT !.len = n, !.threads = t, !.ev = <<"bad">>] : n \in {-1, 0, Limit - 1, Limit, Limit + 1, 10 * Limit}, t \in BOOLEAN}
  \cup {[Check EXCEPT !.body = b] : b \in {"nofiles", "notext", "nodict", "other"}}
  \cup {[Check EXCEPT !.ev = e] : e \in {<<>>} \cup {<<a>> : a \in {"exec", "self", "file", "try", "bg", "BG"}}
                                        \cup {<<"bg", "BG">>, <<"BG", "bg">>, <<"bad", "file">>, <<"self", "exec", "bad">>, <<"BG", "try">>}}
Printed == (pc = "idle" /\ Len(hist) = MaxRequests) => PrintT("WEB " \o ToJson(hist))
=============================================================================
