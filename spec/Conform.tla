------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Code to specification: every recorded execution of the implementation   *)
(* has to be a behaviour of the specification.                             *)
(*                                                                         *)
(* The recording is a sequence of calls [s: the name, k: the flags,      *)
(* n: flags that were given by their names (k is zero then), r: the        *)
(* outcome ("O" ok, "E" error), t: the text].  It is cut into lanes, which *)
(* TLC's workers walk through in parallel; each step consumes one call.    *)
(* A call the specification does not allow is printed with what it allows. *)
(***************************************************************************)
EXTENDS MsParse, IOUtils

CONSTANT Lanes

Calls == JsonDeserialize(IOEnv.TRACE)

Expected(x) == LET d == Demangle(x.s, MaskOf(x.n) + x.k)
               IN IF d.ok THEN [r |-> IF d.free THEN "F" ELSE "O", t |-> Join(d.c), w |-> d.w]
                  ELSE [r |-> "E", t |-> d.why, w |-> d.w]

\* The text of an error is the reason it gave, if that was recorded.
Allowed(x, e) == IF x.r = "E" THEN e.r # "O" /\ (x.t = "" \/ \E i \in 1..Len(e.w) : e.w[i] = x.t)
                 ELSE e.r # "E" /\ x.t = e.t

VARIABLES lane, pos, good
vars == <<lane, pos, good>>

Init == lane \in 1..Lanes /\ pos = lane /\ good = 0
Next == /\ pos <= Len(Calls)
        /\ pos' = pos + Lanes /\ UNCHANGED lane
        /\ LET x == Calls[pos]
               e == Expected(x)
               a == Allowed(x, e)
           IN /\ good' = good + (IF a THEN 1 ELSE 0)
              /\ a \/ PrintT("MISMATCH " \o ToString(pos) \o " " \o ToJson(e))

\* Reported at the end of each lane, so that the driver can tell that all was examined.
Done == pos > Len(Calls) => PrintT("LANE " \o ToString(lane) \o " " \o ToString(good))
=============================================================================
