------------------------------ MODULE MC_Rewrite ------------------------------
(* Small worlds, all of them; how each can end is printed for the replay.      *)
EXTENDS Rewrite, Json

CONSTANT Deep

Kinds == {"keep", "issue", "fail"}
Contents == {<<a>> : a \in Kinds} \cup {<<a, b>> : a, b \in Kinds}
Few == {<<"keep">>, <<"issue">>, <<"keep", "issue">>, <<"issue", "fail">>}
Names == {{}, {"own"}, {"link"}, {"own", "link"}}
Attrs == {[mode |-> 384, owner |-> 0], [mode |-> 416, owner |-> 1], [mode |-> 2541, owner |-> 1]}
F(c, n, a) == [lines |-> c, names |-> n, mode |-> a.mode, owner |-> a.owner]
First == {F(c, n, a) : c \in Contents, n \in Names \ {{}}, a \in Attrs}
Second == {F(c, n, [mode |-> 420, owner |-> 0]) : c \in Few, n \in IF Deep THEN Names ELSE {{}, {"own"}, {"own", "link"}}}
Third == {F(<<"issue">>, n, [mode |-> 256, owner |-> 0]) : n \in {{}, {"link"}}}
Answers == {"y", "n"}
AllWorlds ==
  {[files |-> <<a>>, answer |-> x] : a \in First, x \in {"y", "n", "", "Y", "yes", " y", "y ", "EOF"}}
  \cup {[files |-> <<a, b>>, answer |-> "y"] : a \in First, b \in Second}
  \cup (IF Deep THEN {[files |-> <<a, b, c>>, answer |-> "y"] : a \in First, b \in Second, c \in Third} ELSE {})

Outcome == [i \in Files |-> IF IsOld(i) THEN "old" ELSE "new"]
Printed == Over => PrintT("REWRITE " \o ToJson(
  [w |-> w, pc |-> pc, fault |-> fault, files |-> Outcome, temp |-> tmp # 0]))
=============================================================================
