------------------------------- MODULE MC_Mute --------------------------------
(* Every small value of ALINT_IGNORE, one piece at a time.                     *)
EXTENDS Commands, Json

CONSTANT Size
VARIABLES txt, n

Pieces == {S(",")} \cup {S(<<"E_APP_MISSING", "E_APP", "E", "_", "W_WSH_", " ", "E_FUNC_MISSING", "W_", "G", "W_WSH_EOL", "E_VAR">>[i]) : i \in 1..11}
Classes == {"E_APP_MISSING", "E_FUNC_MISSING", "W_WSH_EOL", "W_APP_BAD_CASE", "E_VAR_BAD_TOKENS", "W_DP_PRIO_BADORDER",
            "E_DP_GOTO_NOCONTEXT", "E_APP_ARG_BADOPT", "E_CONF_BAD_LINE", "H_PAT_NON_CANONICAL"}
(* what is between two commas, or between one and an end *)
Between(s, i, j) == /\ i <= j
                  /\ (i = 1 \/ s[i-1] = 44) /\ (j = Len(s) \/ s[j+1] = 44)
                  /\ \A k \in i..j : s[k] # 44
Hit(s, c) ==
  \E i, j \in 1..Len(s) :
    /\ Between(s, i, j)
    /\ \/ SubSeq(s, i, j) = S(c)
       \/ s[j] = 95 /\ j - i < Len(S(c)) /\ \A k \in i..j : s[k] = S(c)[k + 1 - i]
Ignored(s) == {c \in Classes : Ignores(s, c)}
MuteRight ==
  /\ Ignored(txt) = {c \in Classes : Hit(txt, c)}
  \* one more entry changes nothing for the others
  /\ \A p \in Pieces : Ignored(txt \o <<44>> \o p) = Ignored(txt) \cup Ignored(p)
  /\ \A p \in Pieces : Ignored(p \o <<44>> \o txt) = Ignored(txt) \cup Ignored(p)
  /\ Ignored(<<>>) = {}
(* a finished entry counts for good *)
NeverBack == [][txt # <<>> /\ txt'[Len(txt) + 1] = 44 => Ignored(txt) \subseteq Ignored(txt')]_<<txt, n>>
Recorded == PrintT("MUTE " \o ToJson([ignore |-> txt]))

Init == txt = <<>> /\ n = 0 /\ cs = [files |-> <<>>] /\ st = 0
Next == n < Size /\ (\E p \in Pieces : txt' = txt \o p) /\ n' = n + 1 /\ UNCHANGED <<cs, st>>
===============================================================================
