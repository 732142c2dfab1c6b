SPECIFICATION Spec
INVARIANTS FastAgrees Fires Needed EmitCase
CHECK_DEADLOCK FALSE
CONSTANTS
  Names <- NamesFromEnv
  AllRules <- AllFromEnv
  Emit <- EmitFromEnv
