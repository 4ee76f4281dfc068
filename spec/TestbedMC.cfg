SPECIFICATION Spec
CONSTANTS Steps = 3
INVARIANTS Known Prefers
PROPERTIES Readable OneLineEach Harmless
CHECK_DEADLOCK FALSE
