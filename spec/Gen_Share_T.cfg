CONSTANT Shapes <- Thorough
INIT Init
NEXT Next
INVARIANT Emit
