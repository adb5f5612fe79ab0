---- MODULE MC_readbuffer ----
(* C13: the buffer makes progress wherever fields and pieces end *)
EXTENDS ReadBuffer
====
