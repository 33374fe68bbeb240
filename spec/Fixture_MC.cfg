SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS LastOfEach Rigid Emit
