SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Places Onto Cubes
