SPECIFICATION Spec
INVARIANTS Independent Bounded EndIsFinal LastWins
CHECK_DEADLOCK FALSE
