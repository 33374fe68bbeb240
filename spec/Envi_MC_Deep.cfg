SPECIFICATION Spec
CONSTANTS
  MaxSide = 5
  MaxEntries = 2
  SepKinds = 3
INVARIANTS EveryPlaceOnce ReadsBack EveryByteOnce OneByteHasNoOrder OneBand ParsesBack Emit
