SPECIFICATION Spec
CONSTANTS
  Width = 3
  Height = 3
  MaxSites = 5
INVARIANTS
  BeachIsLowerEnvelope
  VerticesAreEmptyCircles
  EdgesMatchBeach
  OpenEndsAreTraced
  SweptIsComplete
  NoDeadlockBeforeEnd
PROPERTIES
  SweepMovesDown
  SitesOnce
CHECK_DEADLOCK FALSE
