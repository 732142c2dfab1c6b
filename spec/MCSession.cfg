SPECIFICATION Spec
INVARIANTS SessionType FollowsSwitch ImprovedIfGlobal ActiveIff Emit
PROPERTY Restored
CHECK_DEADLOCK FALSE
