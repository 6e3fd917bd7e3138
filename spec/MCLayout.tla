------------------------------ MODULE MCLayout ------------------------------
EXTENDS Layout
Shape2 == <<3, 2>>
Shape3 == <<2, 3, 2>>
=============================================================================
