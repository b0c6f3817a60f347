------------------------------ MODULE MC_Session ------------------------------
EXTENDS Session, Json
Events == {"bad", "bg", "BG", "inc"}
AllRequests ==
  {[body |-> "ok", ev |-> e] : e \in {<<>>, <<"plain">>} \cup {<<a>> : a \in Events} \cup {<<a, b>> : a, b \in Events}
                                     \cup {<<"BG", "bg", "inc">>, <<"bad", "BG", "bg">>}}
  \cup {[body |-> b, ev |-> <<>>] : b \in {"big", "threads", "nofiles", "notext"}}
Printed == (Idle /\ Len(hist) = MaxRequests) => PrintT("SESSION " \o ToJson(
  [i \in 1..Len(hist) |-> [req |-> hist[i].req, refused |-> hist[i].answer.refused,
                           msgs |-> [n \in 1..Len(hist[i].answer.msgs) |-> <<hist[i].answer.msgs[n].l, hist[i].answer.msgs[n].c>>]]]))
=============================================================================
