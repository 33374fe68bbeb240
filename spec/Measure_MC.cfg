SPECIFICATION Spec
CONSTANTS
  Vals = {0, 4, 9}
  Steps = 3
INVARIANTS MeanIsWithin OneIsThePixel OddIsCentred WideIsEverything FarOffIsNothing WideSeesAll MissingDoesNotCount Symmetric BestWithItself OrderOfPixelsIsNoMatter StretchIsNoMatter Emit
