SPECIFICATION Spec
CONSTANTS MaxLen = 4
VIEW View
INVARIANTS Recover EffectInvariant
CHECK_DEADLOCK FALSE
