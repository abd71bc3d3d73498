----------------------------- MODULE ConnRead -----------------------------
(* Contract of the receive side of one connection (property P02).           *)
EXTENDS Integers
VARIABLES
  arr,     \* bytes that have arrived at the socket
  hi,      \* bytes offered to the message callback so far
  reading, \* "on", "dis" (disable call in progress), "off", "en" (enable in progress)
  peer,    \* the peer has ended its stream
  hard,    \* reset, force-closed or torn down: unread bytes may be lost
  live     \* between up and down
rvars == <<arr, hi, reading, peer, hard, live>>
RInit == arr = 0 /\ hi = 0 /\ reading = "on" /\ peer = FALSE /\ hard = FALSE /\ live = FALSE

Arrive(n) == /\ ~peer /\ arr' = arr + n /\ UNCHANGED <<hi, reading, peer, hard, live>>
PeerEnd == peer' = TRUE /\ UNCHANGED <<arr, hi, reading, hard, live>>
Hard == hard' = TRUE /\ UNCHANGED <<arr, hi, reading, peer, live>>
Up == live' = TRUE /\ UNCHANGED <<arr, hi, reading, peer, hard>>
DisableCall == reading' = (IF reading = "on" THEN "dis" ELSE reading) /\ UNCHANGED <<arr, hi, peer, hard, live>>
DisableRet == reading' = "off" /\ UNCHANGED <<arr, hi, peer, hard, live>>
EnableCall == reading' = (IF reading = "off" THEN "en" ELSE reading) /\ UNCHANGED <<arr, hi, peer, hard, live>>
EnableRet == reading' = "on" /\ UNCHANGED <<arr, hi, peer, hard, live>>

(* the callback sees bytes from..to: everything unconsumed plus news;       *)
(* ok: the content is the content that arrived                              *)
Deliver(from, to, ok, onloop) ==
  /\ live /\ onloop /\ ok /\ reading # "off"
  /\ from <= hi /\ to > hi /\ to <= arr
  /\ hi' = to /\ UNCHANGED <<arr, reading, peer, hard, live>>

(* all bytes that precede the orderly end are delivered before down (unless *)
(* the user has switched reading off)                                       *)
Down == /\ hard \/ reading # "on" \/ hi = arr
        /\ live' = FALSE /\ UNCHANGED <<arr, hi, reading, peer, hard>>
Quiet == /\ live /\ ~hard /\ reading = "on" => hi = arr
         /\ UNCHANGED rvars

DeliveredArrived == hi <= arr
=============================================================================
