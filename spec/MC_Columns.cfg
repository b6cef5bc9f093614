SPECIFICATION Spec
CONSTANTS H = 6 Areas = {0, 1, 2} Thrs = {0, 1, 2} Emit = FALSE
INVARIANTS TypeOK IsCanonical UnionExact InsertAlwaysOK
CHECK_DEADLOCK FALSE
