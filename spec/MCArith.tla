------------------------------- MODULE MCArith -------------------------------
EXTENDS Arith
I1 == <<1, 5>>
I2 == <<2, 3>>
I3 == <<7, 4>>
==============================================================================
