------------------------------- MODULE MCBatch -------------------------------
EXTENDS Batch
MCLayout == [x \in Images |-> IF x = "c" THEN "L2" ELSE "L1"]
=============================================================================
