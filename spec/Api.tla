--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The public interface as a state machine: callers own text buffers and   *)
(* call demangle and demangle_into, in any order.                          *)
(*                                                                         *)
(* demangle_into takes the buffer, clears it, decodes the name, writes the *)
(* output piece by piece and hands the buffer back; it can fail before or  *)
(* in the middle of writing.  Between the steps of one call only its own   *)
(* buffer changes, so that calls on different threads commute; every       *)
(* outcome is a function of the name and the flags alone.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Calls,        \* the calls there are: name and flags
          Result(_),    \* their outcome: [ok: BOOLEAN, t: text]
          Prefixes(_),  \* the texts that may have been written before a call ends
          Buffers, Texts,
          Rooms         \* the capacities buffers start with

VARIABLES held,         \* what each buffer holds
          room,         \* its capacity
          busy,         \* the call that is being executed on it, or "none"
          said          \* the outcome the caller got last
api == <<held, room, busy, said>>

Free == "none"
Nothing == [ok |-> TRUE, t |-> ""]
ApiInit == /\ held \in [Buffers -> Texts] /\ room \in [Buffers -> Rooms] /\ \A b \in Buffers : room[b] >= Len(held[b])
           /\ busy = [b \in Buffers |-> Free] /\ said = [b \in Buffers |-> Nothing]

(***************************************************************************)
(* One call, step by step                                                  *)
(***************************************************************************)
Begin(b, c) ==
  /\ busy[b] = Free
  /\ busy' = [busy EXCEPT ![b] = c] /\ held' = [held EXCEPT ![b] = ""] /\ UNCHANGED <<room, said>>
Write(b, t) ==
  /\ busy[b] # Free /\ t \in Prefixes(busy[b]) /\ Len(t) > Len(held[b])
  /\ held' = [held EXCEPT ![b] = t]
  /\ room' = [room EXCEPT ![b] = IF @ < Len(t) THEN Len(t) ELSE @] /\ UNCHANGED <<busy, said>>
Finish(b) ==
  /\ busy[b] # Free
  /\ LET r == Result(busy[b])
     IN /\ r.ok => held[b] = r.t
        /\ held' = [held EXCEPT ![b] = IF r.ok THEN @ ELSE ""]
        /\ said' = [said EXCEPT ![b] = r]
  /\ busy' = [busy EXCEPT ![b] = Free] /\ UNCHANGED room
\* the caller uses its buffer between calls
Use(b, t) ==
  /\ busy[b] = Free /\ t # "" /\ held' = [held EXCEPT ![b] = @ \o t]
  /\ room' = [room EXCEPT ![b] = IF @ < Len(held'[b]) THEN Len(held'[b]) ELSE @] /\ UNCHANGED <<busy, said>>

(***************************************************************************)
(* A whole call, as the caller sees it                                     *)
(***************************************************************************)
Into(b, c, more) ==
  /\ busy[b] = Free
  /\ held' = [held EXCEPT ![b] = IF Result(c).ok THEN Result(c).t ELSE ""]
  /\ room' = [room EXCEPT ![b] = @ + more]
  /\ said' = [said EXCEPT ![b] = Result(c)] /\ UNCHANGED busy

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)
\* after a call, and until the caller uses it, a buffer holds the result or nothing
Exact == \A b \in Buffers : busy[b] = Free => (said[b].ok \/ said[b].t = "")
RoomEnough == \A b \in Buffers : room[b] >= Len(held[b])
NeverShrinks == [][\A b \in Buffers : room'[b] >= room[b]]_api
HandedBack == [][\A b \in Buffers : (busy[b] # Free /\ busy'[b] = Free) =>
                    held'[b] = (IF Result(busy[b]).ok THEN Result(busy[b]).t ELSE "")]_api
\* no call disturbs another buffer
Apart == [][\A a, b \in Buffers : (a # b /\ busy[a] # busy'[a]) => held'[b] = held[b] /\ said'[b] = said[b]]_api
=============================================================================
