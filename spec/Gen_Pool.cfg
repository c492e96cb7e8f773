CONSTANTS Holders = {1, 2, 3}
MaxLen = 6
INIT Init
NEXT Next
INVARIANT Emit
