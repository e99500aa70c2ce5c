INIT Init
NEXT Next
INVARIANT Ordered Leftmost Vetoes Untouched EmitEnum CheckCase
