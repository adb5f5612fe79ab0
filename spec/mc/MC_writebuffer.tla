---- MODULE MC_writebuffer ----
(* C14: the writer, the socket and a reader that reads when it likes *)
EXTENDS WriteBuffer
====
