SPECIFICATION Spec
CONSTANTS
  Chars = {10, 13, 65, 66, 97, 49}
  MaxLen = 4
  MaxWrites = 3
INVARIANTS NoReturnsLeft CleanOnce CleanKeepsText SnakeKeepsLetters SnakeIsLow ExtsSplit OnlyFiles Emit
