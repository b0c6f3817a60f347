------------------------------- MODULE Rewrite -------------------------------
(* How the rewriting tools (asterisklint/helper/mutator.py) write files: ask,
   then per file make a temporary file next to it, copy the lines (replacing
   those at issue), flush, copy owner and mode, rename, close.  The tool can
   be stopped by an error or killed before every step.

   A world w is
     files   <<[lines, mode, owner, names]>>  lines of kind "keep", "issue" or
             "fail" (an issue that cannot be put right); names is a set out of
             "own" and "link" by which it was included
     answer  what the user answers
   The file system: dir[i] is the inode that the name of file i has, link[i]
   whether its link is a link, ino what the inodes hold.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Worlds

VARIABLES w, pc, dir, link, ino, tmp, buf, pos, cur, todo, fault

vars == <<w, pc, dir, link, ino, tmp, buf, pos, cur, todo, fault>>
Files == 1..Len(w.files)
Cell(i, j, new) == <<i, j, IF new THEN "new" ELSE "old">>
Old(i) == [j \in 1..Len(w.files[i].lines) |-> Cell(i, j, FALSE)]
New(i) == [j \in 1..Len(w.files[i].lines) |-> Cell(i, j, w.files[i].lines[j] # "keep")]
AtIssue(i) == w.files[i].names # {} /\ \E j \in 1..Len(w.files[i].lines) : w.files[i].lines[j] # "keep"
Fails(i) == \E j \in 1..Len(w.files[i].lines) : w.files[i].lines[j] = "fail"
(* what the tool itself makes files with *)
Private == [data |-> <<>>, mode |-> 384, owner |-> 0]

Init ==
  /\ w \in Worlds
  /\ pc = "ask" /\ fault = "none"
  /\ dir = [i \in Files |-> i]
  /\ link = [i \in Files |-> TRUE]
  /\ ino = [i \in Files |-> [data |-> Old(i), mode |-> w.files[i].mode, owner |-> w.files[i].owner]]
  /\ tmp = 0 /\ buf = <<>> /\ pos = 0 /\ cur = 0
  /\ todo = {i \in Files : AtIssue(i)}

Ask ==
  /\ pc = "ask"
  /\ pc' = IF todo # {} /\ w.answer = "y" THEN "next" ELSE "done"
  /\ UNCHANGED <<w, dir, link, ino, tmp, buf, pos, cur, todo, fault>>
(* the order of the files is left open *)
NextFile ==
  /\ pc = "next"
  /\ IF todo = {} THEN pc' = "done" /\ UNCHANGED <<cur, todo>>
     ELSE \E i \in todo : cur' = i /\ todo' = todo \ {i} /\ pc' = "temp"
  /\ UNCHANGED <<w, dir, link, ino, tmp, buf, pos, fault>>
MakeTemp ==
  /\ pc = "temp"
  /\ ino' = Append(ino, Private) /\ tmp' = Len(ino) + 1
  /\ buf' = <<>> /\ pos' = 0 /\ pc' = "copy"
  /\ UNCHANGED <<w, dir, link, cur, todo, fault>>
CopyLine ==
  /\ pc = "copy" /\ pos < Len(w.files[cur].lines)
  /\ LET kind == w.files[cur].lines[pos + 1] IN
     IF kind = "fail" THEN pc' = "clean" /\ UNCHANGED <<buf, pos>>
     ELSE buf' = Append(buf, Cell(cur, pos + 1, kind = "issue")) /\ pos' = pos + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<w, dir, link, ino, tmp, cur, todo, fault>>
(* the buffer may reach the disk early *)
Spill ==
  /\ pc = "copy" /\ buf # <<>>
  /\ ino' = [ino EXCEPT ![tmp].data = @ \o buf] /\ buf' = <<>>
  /\ UNCHANGED <<w, pc, dir, link, tmp, pos, cur, todo, fault>>
Flush ==
  /\ pc = "copy" /\ pos = Len(w.files[cur].lines)
  /\ ino' = [ino EXCEPT ![tmp].data = @ \o buf] /\ buf' = <<>>
  /\ pc' = "chown"
  /\ UNCHANGED <<w, dir, link, tmp, pos, cur, todo, fault>>
(* a change of owner takes the set-id bits away, so it goes first *)
Chown ==
  /\ pc = "chown"
  /\ ino' = [ino EXCEPT ![tmp].owner = ino[dir[cur]].owner, ![tmp].mode = @ % 1024]
  /\ pc' = "chmod"
  /\ UNCHANGED <<w, dir, link, tmp, buf, pos, cur, todo, fault>>
Chmod ==
  /\ pc = "chmod"
  /\ ino' = [ino EXCEPT ![tmp].mode = ino[dir[cur]].mode]
  /\ pc' = "rename"
  /\ UNCHANGED <<w, dir, link, tmp, buf, pos, cur, todo, fault>>
Rename ==
  /\ pc = "rename"
  /\ dir' = [dir EXCEPT ![cur] = tmp] /\ tmp' = 0
  /\ pc' = "close"
  /\ UNCHANGED <<w, link, ino, buf, pos, cur, todo, fault>>
Close ==
  /\ pc = "close" /\ pc' = "next"
  /\ UNCHANGED <<w, dir, link, ino, tmp, buf, pos, cur, todo, fault>>

Working == pc \in {"temp", "copy", "chown", "chmod", "rename", "close"}
(* an error, or ^C, in place of a step *)
Error ==
  /\ Working /\ fault = "none"
  /\ fault' = "error" /\ pc' = IF pc = "temp" THEN "failed" ELSE "clean"
  /\ UNCHANGED <<w, dir, link, ino, tmp, buf, pos, cur, todo>>
CleanUp ==
  /\ pc = "clean" /\ tmp' = 0 /\ pc' = "failed"
  /\ UNCHANGED <<w, dir, link, ino, buf, pos, cur, todo, fault>>
Kill ==
  /\ (Working \/ pc \in {"next", "clean"}) /\ fault = "none"
  /\ fault' = "kill" /\ pc' = "killed"
  /\ UNCHANGED <<w, dir, link, ino, tmp, buf, pos, cur, todo>>

Next == \/ Ask \/ NextFile \/ MakeTemp \/ CopyLine \/ Spill \/ Flush \/ Chown \/ Chmod \/ Rename \/ Close
        \/ Error \/ CleanUp \/ Kill
Over == pc \in {"done", "failed", "killed"}

(* ---- what a file is, at any time ---- *)
Data(i) == ino[dir[i]].data
IsOld(i) == dir[i] = i
IsNew(i) == dir[i] # i /\ Data(i) = New(i)

AllOrNothing == \A i \in Files : IsOld(i) \/ IsNew(i)
OldIsOld == \A i \in Files : IsOld(i) => Data(i) = Old(i)
FinalNew == pc = "done" /\ w.answer = "y" => \A i \in Files : AtIssue(i) => IsNew(i)
NothingUnlessYes == w.answer # "y" => /\ \A i \in Files : IsOld(i)
                                      /\ tmp = 0 /\ Len(ino) = Len(w.files)
OthersUntouched == \A i \in Files : ~AtIssue(i) => IsOld(i)
FailingStaysOld == \A i \in Files : Fails(i) => IsOld(i)
AttributesStay == \A i \in Files : /\ ino[dir[i]].mode = w.files[i].mode
                                   /\ ino[dir[i]].owner = w.files[i].owner
LinksStay == \A i \in Files : link[i]
NoTempLeft == pc \in {"done", "failed"} => tmp = 0
DoneMeansNoError == pc = "done" => fault = "none"
(* a file changes once, from the old to the new *)
OneChange == [][\A i \in Files : dir'[i] # dir[i] => IsOld(i)]_vars
=============================================================================
