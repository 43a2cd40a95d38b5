SPECIFICATION Spec
INVARIANTS Partition MidpointInside BoundedCrossings
PROPERTIES CrossingChangesSides NeverStays
