SPECIFICATION Spec
CONSTANT Ticks = 12
INVARIANTS Inverse NamedOnly Whole WeekCount Known Emit
PROPERTY Advance
