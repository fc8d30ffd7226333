SPECIFICATION Spec
INVARIANTS BinaryIsBinary Passive PackInverse
PROPERTY Isolation
CONSTRAINT Small
CHECK_DEADLOCK FALSE
