SPECIFICATION Spec
INVARIANTS AllMonomials Term Images
