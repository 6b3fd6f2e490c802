---- MODULE MC_CommandTool ----
EXTENDS CommandTool
Order2 == <<"b", "a">>
Order3 == <<"b", "c", "a">>
=============================================================================
