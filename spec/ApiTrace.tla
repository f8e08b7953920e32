------------------------------- MODULE ApiTrace -------------------------------
(***************************************************************************)
(* Recorded histories of the real interface have to be histories of Api.   *)
(*                                                                         *)
(* The recording names the calls it uses (name and flags), the texts that  *)
(* were seen, and the events in the order in which the callers saw them:   *)
(*   new    buffer b was created with text x and capacity c1               *)
(*   call   demangle_into(call i) on b: outcome r, text x, capacity c0, c1 *)
(*   use    the caller appended text y to b, which then held text x        *)
(*   fresh  demangle(call i) on some thread: outcome r, text x             *)
(* Outcomes are judged by the decoder specification itself.                *)
(***************************************************************************)
EXTENDS MsParse, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Names == Trace.names
Seen == Trace.texts
Events == Trace.events

\* what the specification makes of each call
Decoded == [i \in 1..Len(Names) |->
             LET d == TLCEval(Demangle(Names[i].s, Names[i].k))
             IN TLCEval([ok |-> d.ok, t |-> IF d.ok THEN Join(d.c) ELSE "", free |-> d.free])]
Outcome(i) == [ok |-> Decoded[i].ok, t |-> Decoded[i].t]
Parts(i) == {}
CallSet == 1..Len(Names)
BufferSet == {Events[i].b : i \in {j \in 1..Len(Events) : Events[j].w = "new"}}

VARIABLES held, room, busy, said, place, agreed
A == INSTANCE Api WITH Calls <- CallSet, Result <- Outcome, Prefixes <- Parts, Buffers <- BufferSet, Texts <- {}, Rooms <- {}
every == <<held, room, busy, said, place, agreed>>

TInit == /\ held = [b \in BufferSet |-> ""] /\ room = [b \in BufferSet |-> 0]
         /\ busy = [b \in BufferSet |-> "none"] /\ said = [b \in BufferSet |-> [ok |-> TRUE, t |-> ""]]
         /\ place = 1 /\ agreed = 0

\* the step of Api that the event claims to be, and whether what was observed agrees with it
Observed(e) ==
  CASE e.w = "new" -> /\ held' = [held EXCEPT ![e.b] = Seen[e.x]] /\ room' = [room EXCEPT ![e.b] = e.c1]
                      /\ UNCHANGED <<busy, said>>
    [] e.w = "call" -> A!Into(e.b, e.i, e.c1 - room[e.b])
    [] e.w = "use" -> A!Use(e.b, Seen[e.y])
    [] OTHER -> UNCHANGED <<held, room, busy, said>>
Agrees(e) ==
  CASE e.w = "call" -> /\ e.c0 = room[e.b] /\ e.c1 >= e.c0 /\ e.c1 >= WidthOf(Seen[e.x])
                       /\ (e.r = "O") = Outcome(e.i).ok /\ e.r \in {"O", "E"}
                       /\ Seen[e.x] = Outcome(e.i).t
    [] e.w = "use" -> Seen[e.x] = held[e.b] \o Seen[e.y]
    [] e.w = "fresh" -> e.r = (IF Outcome(e.i).ok THEN "O" ELSE "E") /\ Seen[e.x] = Outcome(e.i).t
    [] OTHER -> TRUE
\* after a step the recording goes on from what was observed
Resync(e) == CASE e.w = "use" -> room' = [room EXCEPT ![e.b] = e.c1] /\ held' = [held EXCEPT ![e.b] = Seen[e.x]] /\ UNCHANGED <<busy, said>>
               [] OTHER -> Observed(e)
TNext == /\ place <= Len(Events)
         /\ LET e == Events[place]
            IN /\ Resync(e)
               /\ place' = place + 1
               /\ IF TLCEval(Agrees(e)) THEN agreed' = agreed + 1
                  ELSE agreed' = agreed /\ PrintT("MISMATCH " \o ToString(place) \o " " \o
                         ToJson(IF e.w \in {"call", "fresh"} THEN Outcome(e.i) ELSE [ok |-> TRUE, t |-> ""]))
Walked == place > Len(Events) => PrintT("WALKED " \o ToString(agreed))
=============================================================================
