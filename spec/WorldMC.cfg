SPECIFICATION Spec
CONSTANTS Budget = 4
 Ops = {"send", "recv", "drop", "cancel", "kill"}
 Big = {2}
 Carry = {1}
INVARIANTS Delivery EndOfStream Unique Types Progress
CHECK_DEADLOCK FALSE
