SPECIFICATION Spec
CONSTANTS
  MaxSide = 3
  MaxEntries = 2
  SepKinds = 2
INVARIANTS EveryPlaceOnce ReadsBack EveryByteOnce OneByteHasNoOrder OneBand ParsesBack Emit
