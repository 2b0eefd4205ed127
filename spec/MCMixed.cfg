SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv MessageOk FieldOk RecoverOk NoLimitOk ReadsBack
CONSTANT Profile = "read"
CONSTANT Depth = 3
CONSTANT Size = 2
CONSTANT Emitting = FALSE
CONSTANT Shard = 0
CONSTANT Shards = 1
