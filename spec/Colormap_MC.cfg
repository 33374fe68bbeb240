SPECIFICATION Spec
CONSTANTS
  Top = 4
  MaxLen = 3
  MaxBins = 4
INVARIANTS EndColours LimitsAreEnds SameCountSamePalette OneColourInside StepsAreOfThePalette EqualSteps MidBetween NormalEnds BlendEnds Emit
