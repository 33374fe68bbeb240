SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS Inside NoGap Whole Shared Fitting Emit
