------------------------------ MODULE MCDialog ------------------------------
EXTENDS Dialog
S2 == <<5, 4>>
S3 == <<4, 5, 6>>
=============================================================================
