------------------------------- MODULE MCMorph -------------------------------
EXTENDS Morph
MCShape == <<7, 8>>
=============================================================================
