SPECIFICATION Spec
CONSTANTS Vars = {x, y} Nodes = {n1, n2, n3, n4, n5, n6, n7, n8} MaxOps = 3 Unique = TRUE Recount = TRUE Hold = TRUE
INVARIANTS Separate Counted
CHECK_DEADLOCK FALSE
