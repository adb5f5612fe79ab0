---- MODULE WireBases ----
(* well-formed streams; bytes lo..hi are the ones to be changed (written by tools/gen_mc.py) *)
EXTENDS Sequences
Bases == <<
  [lo |-> 1, hi |-> 16, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* minimal CONNECT
  [lo |-> 1, hi |-> 40, bs |-> <<16, 38, 0, 4, 77, 81, 84, 84, 4, 236, 0, 10, 0, 2, 107, 50, 0, 3, 119, 47, 116, 0, 3, 98, 121, 101, 0, 4, 117, 115, 101, 114, 0, 6, 115, 101, 99, 114, 101, 116, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* CONNECT with everything
  [lo |-> 1, hi |-> 28, bs |-> <<16, 26, 0, 4, 77, 81, 84, 84, 4, 194, 0, 60, 0, 0, 0, 4, 117, 115, 101, 114, 0, 6, 115, 101, 99, 114, 101, 116, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* CONNECT with an empty identifier
  [lo |-> 1, hi |-> 23, bs |-> <<16, 21, 0, 4, 77, 81, 84, 84, 4, 22, 0, 60, 0, 2, 107, 51, 0, 1, 119, 0, 2, 0, 255, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* CONNECT with a will
  [lo |-> 1, hi |-> 29, bs |-> <<16, 27, 0, 4, 77, 81, 84, 84, 4, 194, 0, 60, 0, 2, 107, 52, 0, 4, 117, 115, 101, 114, 0, 5, 119, 114, 111, 110, 103, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* CONNECT refused
  [lo |-> 17, hi |-> 26, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 8, 0, 3, 97, 47, 98, 104, 101, 121, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH QoS 0
  [lo |-> 17, hi |-> 22, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 4, 0, 2, 97, 98, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH without payload
  [lo |-> 17, hi |-> 27, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 50, 9, 0, 3, 97, 47, 98, 1, 2, 104, 105, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH QoS 1
  [lo |-> 17, hi |-> 26, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 61, 8, 0, 2, 36, 120, 0, 1, 104, 105, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH QoS 2 with all flags
  [lo |-> 17, hi |-> 32, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 14, 0, 10, 195, 169, 230, 151, 165, 47, 240, 159, 152, 128, 255, 0, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH with all kinds of characters
  [lo |-> 17, hi |-> 152, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 133, 1, 0, 1, 116, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH with two bytes of length
  [lo |-> 17, hi |-> 44, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 130, 12, 1, 44, 0, 1, 97, 0, 0, 3, 43, 47, 98, 1, 48, 4, 0, 1, 97, 49, 48, 6, 0, 3, 120, 47, 98, 50, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* SUBSCRIBE
  [lo |-> 17, hi |-> 24, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 130, 6, 0, 1, 0, 1, 35, 2, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* SUBSCRIBE QoS 2
  [lo |-> 17, hi |-> 32, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 130, 14, 0, 5, 0, 9, 195, 159, 226, 130, 172, 240, 157, 132, 158, 0, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* SUBSCRIBE with all kinds of characters
  [lo |-> 29, hi |-> 51, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 130, 10, 0, 2, 0, 1, 97, 0, 0, 1, 98, 0, 162, 9, 3, 2, 0, 1, 97, 0, 2, 99, 99, 48, 4, 0, 1, 97, 49, 48, 4, 0, 1, 98, 50, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* UNSUBSCRIBE
  [lo |-> 17, hi |-> 32, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 64, 2, 2, 3, 80, 2, 2, 3, 98, 2, 2, 3, 112, 2, 2, 3, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* acknowledgements
  [lo |-> 17, hi |-> 20, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 192, 0, 224, 0, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PINGREQ, DISCONNECT
  [lo |-> 1, hi |-> 6, bs |-> <<48, 4, 0, 1, 97, 120, 16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 48, 4, 0, 1, 115, 33, 192, 0>>],    \* PUBLISH first
  [lo |-> 17, hi |-> 32, bs |-> <<16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 49, 16, 14, 0, 4, 77, 81, 84, 84, 4, 2, 0, 60, 0, 2, 107, 53, 48, 4, 0, 1, 115, 33, 192, 0>>]    \* second CONNECT
>>
====
