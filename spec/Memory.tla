------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The memory of the calls.  Every call starts from the heap its           *)
(* predecessor left; it may build up what its name makes it build - the    *)
(* nodes, the names rendered for back-references, the result - and must    *)
(* leave the heap as it found it once the result is dropped.               *)
(*                                                                         *)
(* The recording is a sequence of calls [s: the name, k, n: the flags,     *)
(* r: the outcome, kept: the bytes that stayed allocated, peak: the        *)
(* largest number of bytes allocated during the call, in KiB, heavy: TRUE  *)
(* if decoding the name is beyond TLC].  TLC decides whether it is a       *)
(* behaviour: the heap stays empty, and no call exceeds its allowance.     *)
(***************************************************************************)
EXTENDS MsParse, IOUtils

CONSTANT Lanes

Calls == JsonDeserialize(IOEnv.TRACE)

\* What one item of each kind may take: several times of what it needs.  Texts grow by doubling and,
\* under flags, are rendered a second time without any.
PerNode == 512
PerCharacter == 16
PerByte == 8
Fixed == 32                         \* KiB

KiB(bytes) == bytes \div 1024 + 1
Allowance(nodes, rendered, output, chars, flags) ==
  Fixed + KiB(PerNode * nodes) + KiB(PerCharacter * chars) + PerByte * KiB(output)
        + PerByte * (IF flags THEN 2 ELSE 1) * KiB(rendered)

\* No name, however it expands, may take more than this.
Ceiling(chars) == Allowance(NodesHi, TextHi, 2 * OutputLimit, chars, FALSE)

Allowed(x) ==
  LET f == Flags(MaskOf(x.n) + x.k)
      s == ParseSymbol[Start(x.s, f)]
      o == IF s.ok THEN Render(s.v, f) ELSE Empty
      \* a rendering that was refused may have come close to its limit
      out == IF o.bad \/ s.why = "output" THEN 2 * OutputLimit ELSE o.n
      full == IF s.ok THEN s.nn ELSE s.nn + 1
  IN IF x.heavy THEN Ceiling(Len(x.s))
     ELSE Allowance(full, s.rn, out, Len(x.s), f.any)

VARIABLES lane, pos, heap
vars == <<lane, pos, heap>>

Init == lane \in 1..Lanes /\ pos = lane /\ heap = 0
Next == /\ pos <= Len(Calls)
        /\ pos' = pos + Lanes /\ UNCHANGED lane
        /\ LET x == Calls[pos]
               a == Allowed(x)
           IN /\ heap' = heap + x.kept
              /\ (x.kept = 0 /\ x.peak <= a) \/ PrintT("MISMATCH " \o ToString(pos) \o " " \o ToJson([kept |-> 0, peak |-> a]))
              /\ Assert(a <= Ceiling(Len(x.s)) + (IF x.k = 0 THEN 0 ELSE PerByte * KiB(TextHi)), "the limits do not imply the ceiling")

Done == pos > Len(Calls) => PrintT("LANE " \o ToString(lane) \o " " \o ToString(heap))
=============================================================================
