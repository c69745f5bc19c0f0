----------------------------------- MODULE MC -----------------------------------
EXTENDS Props
=============================================================================
