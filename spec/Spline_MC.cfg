SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 4, 5}
  Vals = {0, 7}
  Far = 176
INVARIANTS ThroughTheSamples OwnSampleOnly EitherSide SharesAreWhole SlopesStay FadesOut NoJumps LinesTellRows GroundIsAdded OrdersDiffer
