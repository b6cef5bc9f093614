SPECIFICATION TSpec
CONSTANT Checked = {"new", "ins"}
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
