SPECIFICATION Spec
INVARIANTS SessionType FollowsSwitch ImprovedIfGlobal
CHECK_DEADLOCK FALSE
