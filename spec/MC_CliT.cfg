CONSTANT Depth = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK OnePicturePerName FiguresNeedAFolder RefusalWritesNothing OnlyAdds OthersStay SeededRunsRepeat SeededRunsCommute DefaultsAreDefaults ContoursIgnoreSeeds TableSorted
