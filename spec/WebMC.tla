------------------------------- MODULE WebMC -------------------------------
EXTENDS Web
=============================================================================
