SPECIFICATION Spec
INVARIANTS Kinds Laws
PROPERTY Local
CHECK_DEADLOCK FALSE
