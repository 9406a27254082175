SPECIFICATION Spec
VIEW View
CONSTANTS
  MCKeys <- KeysFour
  MCVals <- ValsTwo
  MCCaps <- CapsFew
  MCStrict <- Both
  MCToggle <- Both
  MCEmit = FALSE
INVARIANTS Partitioned SizesAddUp
PROPERTIES Frame StrictNeverGrowsPast
