--------------------------- MODULE TypeSelectionGen --------------------------
EXTENDS TypeSelection, Emit
Emitted == query[1] # "none" => EmitBehaviour(<<<<query, answer, <<>>>>>>)
=============================================================================
