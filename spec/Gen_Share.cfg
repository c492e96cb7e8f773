CONSTANT Shapes <- Quick
INIT Init
NEXT Next
INVARIANT Emit
