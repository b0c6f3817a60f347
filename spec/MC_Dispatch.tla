----------------------------- MODULE MC_Dispatch ------------------------------
(* Small worlds, all of them; each finished one is printed for a replay.       *)
EXTENDS Dispatch, Json

CONSTANTS Builtins,   \* the names of the program's own commands
          Target,     \* one of them
          Deep

AllKinds == {"s0", "s3", "s255", "none", "true", "false", "text", "raise", "exit5", "nodoc", "longdoc", "nomain",
             "import", "syntax", "boom", "linked", "folder", "dangling"}
FewKinds == {"s3", "raise", "nomain", "syntax", "folder"}
Program == [n \in Builtins |-> "builtin"]
Odd == [n \in {"Bad", "_x", "__init__", "a.b", "-d", "a-b_1", "0z"} |-> "s0"]
User(k1, k2) ==
  [n \in (IF k1 = "" THEN {} ELSE {"foo"}) \cup (IF k2 = "" THEN {} ELSE {Target}) |-> IF n = "foo" THEN k1 ELSE k2]
Both(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]
(* the user's directory *)
UserDirs == {User(k, "") : k \in AllKinds \cup {""}} \cup {User("", k) : k \in AllKinds}
            \cup {User(a, b) : a \in FewKinds, b \in FewKinds}
            \cup {Both(User(k, "s0"), Odd) : k \in FewKinds \cup {""}}
(* one more on the PYTHONPATH *)
PathDirs == {<<>>} \cup {<<User(k, "")>> : k \in IF Deep THEN AllKinds ELSE FewKinds}
            \cup {<<User("", "s3")>>, <<User("nomain", "s3")>>, <<Both(User("", ""), [n \in {"zed", "foo"} |-> "none"])>>}
Argvs == {<<"foo">>, <<"ls">>, <<>>, <<"-V">>, <<"-x">>, <<"-h">>, <<Target, "-h">>, <<"-h", Target>>,
          <<"foo", "a", "b">>, <<"-q", "foo", "--", "x", "foo">>, <<"Bad">>, <<"_x">>, <<"__init__">>, <<"a.b">>,
          <<"a-b_1">>, <<"0z", "-1">>, <<"zed">>, <<"../foo">>, <<"">>, <<"foo ">>, <<"FOO">>, <<"nope">>,
          <<"foo", "ls">>, <<"-", "ls", "foo">>, <<"foo.py">>, <<"foo", "">>}
(* every short list of arguments, in one world *)
Words == {"-q", "foo", "ls", "nope", "a", "--"}
ShortArgvs == UNION {[1..k -> Words] : k \in 0..(IF Deep THEN 4 ELSE 3)}
AllWorlds ==
  {[user |-> "full", dirs |-> <<User("s3", ""), Program>>, argv |-> a] : a \in ShortArgvs} \cup
  {[user |-> "full", dirs |-> <<u, Program>> \o p, argv |-> a] : u \in UserDirs, p \in PathDirs, a \in Argvs}
  \cup {[user |-> x, dirs |-> <<Program>> \o p, argv |-> a] : x \in {"none", "empty"}, p \in PathDirs, a \in Argvs}

Listed == {[d |-> st.listed[i].d, n |-> st.listed[i].n, says |-> st.listed[i].says] : i \in 1..Len(st.listed)}
Printed == Done => PrintT("DISPATCH " \o ToJson(
  [user |-> w.user, argv |-> w.argv,
   dirs |-> [i \in 1..Len(w.dirs) |-> {<<n, w.dirs[i][n]>> : n \in {n \in DOMAIN w.dirs[i] : w.dirs[i][n] # "builtin"}}],
   ran |-> st.ran, status |-> st.status, listed |-> Listed]))
View == <<w, [st EXCEPT !.listed = <<Listed>>]>>
=============================================================================
