SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS SpecC01 SpecC02 SpecC03 SpecC04 SpecC05 SpecC06 SpecC11
PROPERTY SameLayout
CHECK_DEADLOCK FALSE
