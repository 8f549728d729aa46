SPECIFICATION Spec
CONSTANT Depth = 8
VIEW View_
INVARIANTS Shape NamesUnique IndexedLive UniqueAlways Current
PROPERTY NeverReused
CHECK_DEADLOCK FALSE
