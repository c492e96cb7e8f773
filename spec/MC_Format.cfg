SPECIFICATION Spec
CONSTANT Choices = 1
INVARIANT Bounds
INVARIANT Verdict
INVARIANT Accepted
INVARIANT SameView
PROPERTY Progress
CHECK_DEADLOCK FALSE
