------------------------------ MODULE Dispatch -------------------------------
(* How the program finds and runs a command.

   A world w has
     user   "none" (no ~/.asterisklint), "empty" (no commands in it) or "full"
     dirs   the command directories in the order of the search: the user's own
            (only when w.user = "full"), the program's, those of PYTHONPATH;
            each a function from file names (without ".py") to kinds
     argv   the arguments (strings)
   Files are of the kinds
     "s0" "s3" "s255"  main returns that status
     "none" "true" "false" "text"  main returns None, True, False or a text
     "raise" "exit5"   main raises an exception, or ends the program itself
     "nodoc" "longdoc" main returns 0; no documentation, or a long one
     "nomain"          there is no main
     "import" "syntax" "boom"  it cannot be loaded
     "linked"          a symbolic link to a file whose main returns 3
     "builtin"         a command of the program (only run with -h)
     "folder" "dangling"  no file at all: a directory of that name, or a
                       symbolic link that leads nowhere                        *)
EXTENDS Text

CONSTANT Worlds
VARIABLES w, st

Starts(c) == IsLower(c) \/ IsDigit(c)
PlainName(n) == LET t == S(n) IN
  t # <<>> /\ Starts(t[1]) /\ \A i \in 1..Len(t) : Starts(t[i]) \/ t[i] \in {45, 95}
IsOption(a) == Len(a) > 0 /\ SubSeq(a, 1, 1) = "-"
FirstCommand(argv) == IF \E i \in 1..Len(argv) : ~IsOption(argv[i])
                      THEN CHOOSE i \in 1..Len(argv) : ~IsOption(argv[i]) /\ \A j \in 1..(i - 1) : IsOption(argv[j])
                      ELSE 0
Without(argv, k) == SubSeq(argv, 1, k - 1) \o SubSeq(argv, k + 1, Len(argv))
Loads(kind) == kind \notin {"import", "syntax", "boom"}
CanRun(kind) == Loads(kind) /\ kind # "nomain"
StatusOf(kind) ==
  CASE kind \in {"s3", "linked"} -> 3 [] kind = "s255" -> 255 [] kind = "exit5" -> 5
    [] kind \in {"true", "text", "raise"} -> 1 [] OTHER -> 0
(* what ls says about a file *)
Says(kind) ==
  CASE ~CanRun(kind) -> "error" [] kind = "nodoc" -> "missing" [] kind = "longdoc" -> "long" [] OTHER -> "doc"

IsFile(kind) == kind \notin {"folder", "dangling"}
Files(dir) == {n \in DOMAIN dir : IsFile(dir[n])}

St0 == [ph |-> "start", d |-> 0, left |-> {}, ran |-> <<>>, listed |-> <<>>, used |-> {}, status |-> -1]

(* ---- transitions ---- *)
Command == LET k == FirstCommand(w.argv) IN IF k = 0 THEN "" ELSE w.argv[k]
Rest == Without(w.argv, FirstCommand(w.argv))
Stop(status) == st' = [st EXCEPT !.ph = "done", !.status = status]

Select ==
  /\ st.ph = "start"
  /\ IF FirstCommand(w.argv) = 0
     THEN \* no command: only the version or the help can be asked for
          Stop(IF \E i \in 1..Len(w.argv) : w.argv[i] \in {"-V", "--version", "-h", "--help"} THEN 0 ELSE 2)
     ELSE IF Command = "ls" THEN st' = [st EXCEPT !.ph = "list"]
     ELSE IF PlainName(Command) THEN st' = [st EXCEPT !.ph = "search", !.d = 1]
     ELSE Stop(1)
  /\ UNCHANGED w
Search ==
  /\ st.ph = "search"
  /\ IF st.d > Len(w.dirs) THEN Stop(1)
     ELSE IF Command \notin Files(w.dirs[st.d]) THEN st' = [st EXCEPT !.d = st.d + 1]
     ELSE st' = [st EXCEPT !.ph = "load"]
  /\ UNCHANGED w
Load ==
  /\ st.ph = "load"
  /\ IF CanRun(w.dirs[st.d][Command]) THEN st' = [st EXCEPT !.ph = "run"] ELSE Stop(1)
  /\ UNCHANGED w
Run ==
  /\ st.ph = "run"
  /\ st' = [st EXCEPT !.ran = Append(@, [d |-> st.d, n |-> Command, a |-> Rest]), !.ph = "done",
                      !.status = StatusOf(w.dirs[st.d][Command])]
  /\ UNCHANGED w
(* ls goes through the directories; the files of one come in any order *)
NextDir ==
  /\ st.ph = "list" /\ st.left = {}
  /\ IF st.d = Len(w.dirs) THEN Stop(0)
     ELSE st' = [st EXCEPT !.d = st.d + 1, !.left = {n \in Files(w.dirs[st.d + 1]) : PlainName(n)}]
  /\ UNCHANGED w
ListOne ==
  /\ st.ph = "list"
  /\ \E n \in st.left :
       st' = [st EXCEPT !.left = @ \ {n}, !.used = @ \cup {n},
                        !.listed = IF n \in st.used THEN @
                                   ELSE Append(@, [d |-> st.d, n |-> n, says |-> Says(w.dirs[st.d][n])])]
  /\ UNCHANGED w
Init == w \in Worlds /\ st = St0
Next == Select \/ Search \/ Load \/ Run \/ NextDir \/ ListOne
Spec == Init /\ [][Next]_<<w, st>> /\ WF_<<w, st>>(Next)

(* ---- what must hold ---- *)
Done == st.ph = "done"
Holders(n) == {d \in 1..Len(w.dirs) : n \in Files(w.dirs[d])}
Winner(n) == CHOOSE d \in Holders(n) : \A e \in Holders(n) : d <= e

RunsAtMostOne == Len(st.ran) <= 1
UserFirst == st.ran # <<>> =>
  /\ st.ran[1].n = Command /\ Holders(Command) # {} /\ st.ran[1].d = Winner(Command)
  /\ (w.user = "full" /\ Command \in Files(w.dirs[1])) => st.ran[1].d = 1
LsRunsNone == Command = "ls" => st.ran = <<>>
Refused(n) == ~PlainName(n) \/ Holders(n) = {} \/ ~CanRun(w.dirs[Winner(n)][n])
RefusedRunsNothing == Done /\ Command \notin {"", "ls"} =>
  /\ Refused(Command) => st.ran = <<>> /\ st.status = 1
  /\ ~Refused(Command) => Len(st.ran) = 1 /\ st.status = StatusOf(w.dirs[Winner(Command)][Command])
NoCommandRunsNothing == FirstCommand(w.argv) = 0 => st.ran = <<>>
LsListsOnce == Done /\ Command = "ls" =>
  /\ \A i, j \in 1..Len(st.listed) : i # j => st.listed[i].n # st.listed[j].n
  /\ {st.listed[i].n : i \in 1..Len(st.listed)} = {n \in UNION {Files(w.dirs[d]) : d \in 1..Len(w.dirs)} : PlainName(n)}
  /\ \A i \in 1..Len(st.listed) : LET x == st.listed[i] IN
       x.d = Winner(x.n) /\ x.says = Says(w.dirs[x.d][x.n])
ArgumentsPassed == st.ran # <<>> =>
  /\ Len(st.ran[1].a) = Len(w.argv) - 1
  /\ \E k \in 1..Len(w.argv) : st.ran[1].a = Without(w.argv, k) /\ w.argv[k] = Command
(* it always comes to an end: there is always a next step, and steps go forward *)
Moves == Done \/ ENABLED Next
Size(s, ww) == LET rank == [start |-> 0, list |-> 1, search |-> 1, load |-> 2, run |-> 3, done |-> 4] IN
  1000 * rank[s.ph] + 100 * s.d - Cardinality(s.left)
Forward == [][Size(st', w) > Size(st, w)]_<<w, st>>
Ends == <>Done
=============================================================================
