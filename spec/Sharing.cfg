SPECIFICATION Spec
CONSTANTS Strs = {x, y} Accs = {a} Bufs = {b1, b2, b3, b4} Cap = 4 Chars = {0, 7} MaxOps = 5
 AtMark = TRUE Alone = TRUE FromStart = TRUE
INVARIANTS Separate Counted Marked
CHECK_DEADLOCK FALSE
