SPECIFICATION Spec
CONSTANTS MaxNodes = 3
INVARIANTS Given
PROPERTIES Kept ConstKept Whole Older
