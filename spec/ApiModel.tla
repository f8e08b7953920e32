------------------------------- MODULE ApiModel -------------------------------
(***************************************************************************)
(* All short histories of calls over outcomes of every kind: a small       *)
(* result, a large one, an error while decoding, an error while writing.   *)
(* Every complete history is printed, for the harness to execute.          *)
(***************************************************************************)
EXTENDS Api, Sequences, TLC, Json

CONSTANTS MaxCalls, Emit
Kinds == {"small", "large", "empty", "broken", "overflow"}
Outcome(k) == CASE k = "small" -> [ok |-> TRUE, t |-> "ab"] [] k = "large" -> [ok |-> TRUE, t |-> "abcdefgh"]
                [] k = "empty" -> [ok |-> TRUE, t |-> ""] [] OTHER -> [ok |-> FALSE, t |-> ""]
Pieces(k) == CASE k = "small" -> {"a", "ab"} [] k = "large" -> {"abcd", "abcdefgh"}
               [] k = "overflow" -> {"ab", "abcdef"} [] OTHER -> {}
Two == {"b1", "b2"}
Held0 == {"", "old contents"}
Rooms0 == {12}

VARIABLES past          \* the steps of the callers so far
all == <<api, past>>
Caller(b, what, x) == past' = Append(past, [b |-> b, w |-> what, x |-> x])
MInit == ApiInit /\ past = <<>>
MNext == \E b \in Two :
  \/ /\ Len(past) < MaxCalls
     /\ \/ \E k \in Kinds : Begin(b, k) /\ Caller(b, "call", k)
        \/ Use(b, "xy") /\ Len(held[b]) < 8 /\ Caller(b, "use", "xy")
  \/ \E t \in {"a", "ab", "abcd", "abcdefgh", "abcdef"} : Write(b, t) /\ UNCHANGED past
  \/ Finish(b) /\ UNCHANGED past
MSpec == MInit /\ [][MNext]_all

Idle == \A b \in Two : busy[b] = Free
\* what the buffer of the last call holds, is decided by this call (and what the caller appended since)
RECURSIVE After(_, _)
After(h, b) == IF h = <<>> THEN "?"
               ELSE LET x == h[Len(h)] rest == SubSeq(h, 1, Len(h) - 1)
                    IN IF x.b # b THEN After(rest, b)
                       ELSE IF x.w = "call" THEN Outcome(x.x).t
                       ELSE IF After(rest, b) = "?" THEN "?" ELSE After(rest, b) \o x.x
Forgetful == Idle => \A b \in Two : After(past, b) = "?" \/ held[b] = After(past, b)
Emitted == (Emit /\ Idle /\ Len(past) = MaxCalls) =>
             PrintT("HIST " \o ToJson(past))
=============================================================================
