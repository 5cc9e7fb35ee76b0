INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Aspects = {"out","fields","flags","context","groups","tokens","pos","stmts"}
