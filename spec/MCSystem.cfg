SPECIFICATION Spec
INVARIANTS Emit SpecC12 SpecC15b SpecC16 SpecC17 SpecC18 SpecC19 SpecC20 SpecC22b SpecC23
PROPERTIES SpecC13 SpecC14 SpecC15 SpecC20b SpecC22 SpecC23b
CHECK_DEADLOCK FALSE
