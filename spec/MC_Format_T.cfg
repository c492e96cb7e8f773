SPECIFICATION Spec
CONSTANT Choices = 3
INVARIANT Bounds
INVARIANT Verdict
INVARIANT Accepted
INVARIANT SameView
CHECK_DEADLOCK FALSE
