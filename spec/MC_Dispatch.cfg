CONSTANTS Worlds <- AllWorlds
 Builtins = {"dialplan-check", "dialplan-show", "modules-show"}
 Target = "dialplan-check"
 Deep = FALSE
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS RunsAtMostOne UserFirst LsRunsNone RefusedRunsNothing NoCommandRunsNothing LsListsOnce ArgumentsPassed Moves Printed
PROPERTY Forward
