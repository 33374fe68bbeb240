SPECIFICATION Spec
CONSTANT Tans = {"0", "1", "-1", "1/2", "-1/3", "2", "-3"}
INVARIANTS Proper ClosedForm Composed Recoverable Boresight Emit
