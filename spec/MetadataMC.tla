----------------------------- MODULE MetadataMC -----------------------------
EXTENDS Metadata
MCTypeSize == [char |-> 1, B3 |-> 3, float |-> 4]
=============================================================================
