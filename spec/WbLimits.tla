-------------------------------- MODULE WbLimits --------------------------------
(***************************************************************************)
(* Resource limits.  A state is a family of names, each made longer by     *)
(* repeating its units, and the number of repetitions, which grows.  Below *)
(* the limits names are accepted, far beyond them they are refused, and    *)
(* once refused a family stays refused.                                    *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS Counts,       \* the numbers of repetitions, ascending
          FirstFamily, LastFamily
VARIABLES family, level
rest == <<family, level>>
vars == <<rest, due>>

RunCounts == <<1, 40, 300, 620>>
QuickCounts == <<1, 2, 10, 11, 60, 300, 620, 2600>>
FullCounts == <<1, 2, 3, 9, 10, 11, 12, 25, 60, 100, 150, 200, 250, 300, 340, 620, 700, 1000, 1400, 2600, 5000>>

RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN Repeat(t \o t, n \div 2) ELSE t \o Repeat(t \o t, n \div 2)

\* pre open^n mid close^n end
F(pre, open, mid, close, end) == [pre |-> pre, open |-> open, mid |-> mid, close |-> close, end |-> end]
Families ==
  << \* nesting
     F("?x@@3", "PEA", "H", "", "EA"), F("?x@@3", "PA", "H", "", "A"), F("?x@@3", "PEAQEB", "H", "", "EA"),
     F("?x@@3", "AEA", "H", "", "EA"), F("?f@@YAX", "P6AX", "H", "@Z", "@Z"), F("?f@@YAX", "P6A", "H", "XZ", "@Z"),
     F("?x@@3", "PEQA@@", "H", "", "EQA@@"), F("?f@@YAX", "P8A@@AEX", "H", "@Z", "@Z"),
     F("?x@@3V", "?$t@V", "A@@", "@@", "A"), F("?x@@3V", "?$t@$$Y", "A@@", "@", "@A"),
     F("?x@@3V?$t@", "$$B", "H", "", "@@A"), F("?x@@3V?$t@", "$$CB", "H", "", "@@A"), F("?x@@3V?$t@", "$$A6A", "X", "XZ", "@@A"),
     F("?x@@3V?$t@", "$1?v@@3V?$t@", "H", "@@A", "@@A"), F("?x@@3V?$t@", "$1?f@@YAX", "P6AX$$QAH@Z", "@Z", "@@A"),
     F("?x@@3V?$t@", "$MH", "0", "", "@@A"),
     F("?x@", "?1??f@", "A@@3HA", "@YAXXZ", "@3HA"), F("?x@", "?1??f@", "@YAXXZ", "@YAXXZ", "@3HA"), F("?x@@3", "PEAY01", "H", "", "EA"), F("?x@@3", "$$BY01", "H", "", "A"),
     F("??_R0", "?AV?$t@V", "A@@", "@@", "@8"), F("??__E", "??__E", "v@@YAXXZ", "@YAXXZ", "@YAXXZ"), F("??__E", "?", "v@@3HA", "", "@YAXXZ"),
     F("??", "$?H", "H@YAXXZ", "@", ""), F("??", "?B?A", "H", "", ""), F("??_R0", "", "H@8", "@", ""), F("??@", "a", "@", "", ""), F(".", "PEA", "H", "", ""),
     F(".?AV", "?$t@V", "A@@", "@@", ""),
     \* breadth
     F("?f@@YAX", "H", "", "", "@Z"), F("?f@@YAX", "_J", "", "", "@Z"), F("?f@@YAX", "PEAH", "", "", "@Z"), F("?f@@YAX", "PEAH0", "", "", "@Z"), F("?f@@YAXPEAH", "0", "", "", "@Z"),
     F("?f@@YAX", "VA@@", "", "", "@Z"), F("?f@@YAXVA@@", "V1@", "", "", "@Z"), F("?f@@YAX", "P6AXH@Z", "", "", "@Z"),
     F("?x@", "a@", "", "", "@3HA"), F("?x@", "a@b@", "", "", "@3HA"), F("?x@", "0", "", "", "@3HA"), F("?x@", "?Aa@", "", "", "@3HA"),
     F("?x@", "?$t@H@", "", "", "@3HA"), F("?x@@3V?$t@", "H", "", "", "@@A"), F("?x@@3V?$t@", "$00", "", "", "@@A"),
     F("?x@@3V?$t@", "$$V", "", "", "@@A"), F("?x@@3V?$t@", "$S", "", "", "@@A"), F("?x@@3V?$t@", "VA@@", "", "", "@@A"), F("?x@@3V?$t@", "$1?v@@3HA", "", "", "@@A"),
     F("?x@@3V?$t@VA@@", "V1@", "", "", "@@A"), F("??_7A@@6B", "a@", "", "", "@"),
     F("??_C@_05AAAAAAAA@", "a", "?$AA", "", "@"), F("??_C@_1CAAA@AAAAAAAA@", "?$AAa", "?$AA?$AA", "", "@"), F("??_C@_0EAA@AAAAAAAA@", "a?$AA", "?$AA?$AA", "", "@"),
     F("?x@@3V?$t@$0", "A", "B@", "", "@@A"), F("?x@@3V?$t@$0", "P", "@", "", "@@A"), F("?", "a", "@@3HA", "", ""), F("?f@@YAXV", "b", "@@", "0", "@Z"),
     F("?x@@3V?$t@U", "é", "@@U1@", "", "@@A"),
     F("?f@@YA?A", "", "VA@@XZ", "XZ", ""), F("?x@@3HA", "A", "", "", ""),
     \* names that double or more with every unit, and how they end early
     F("?f@@YAXPEAH", "P6AX00@Z", "", "", "@Z"), F("?f@@YAXPEAHP6AX000@ZP6AX111@ZP6AX222@ZP6AX333@ZP6AX444@Z", "5", "", "", "@Z"),
     F("?f@@YAXPEAHP6AX0000000000@ZP6AX1111111111@ZP6AX2222222222@ZP6AX3333333333@Z", "4", "", "", "@Z"),
     F("?x@@3V?$t@V?$a@V?$b@V?$c@H@@V1@V1@V1@@@V1@V1@V1@@@", "V1@", "", "", "@A"),
     F("?f@@YAXPEAHP6AX0000000000@ZP6AX1111111111@ZP6AX2222222222@ZP6AX3333333333@ZP6AX4444444444@ZP6AX5555555555@ZP6AX6666666666@ZP6AX7777777777@ZP6AX8888888888@Z", "9", "", "", "@Z") >>
Name0(i, n) == LET x == Families[i] IN x.pre \o Repeat(x.open, n) \o x.mid \o Repeat(x.close, n) \o x.end

Starts1 == family \in FirstFamily..(IF LastFamily = 0 THEN Len(Families) ELSE LastFamily) /\ level = 1
Grow == level < Len(Counts) /\ level' = level + 1 /\ UNCHANGED family

LawfulHere ==
  LET t == TLCEval(Name0(family, Counts[level]))
      d == TLCEval(Decode(t, NoFlags))
      r == TLCEval(Demangle(t, 0))
      big == r.ok /\ FoldLeft(LAMBDA a, c : a + Len(c), 0, r.c) > 20000
  IN /\ Law("nodes", t, (d.ok /\ d.nn >= NodesLo) => (r.free \/ ~r.ok))
     /\ Law("size", t, r.ok => FoldLeft(LAMBDA a, c : a + WidthOf(c), 0, r.c) < OutputLimit)
     /\ Law("why", t, r.why = "output" => d.ok)
     /\ Law("reason", t, (d.nn < NodesLo /\ d.mg <= NestLo /\ d.rn < TextLo /\ d.ok) => (r.ok <=> \A i \in 1..Len(r.w) : r.w[i] # "limit"))
     /\ big \/ Vector(<<t>>, FlagsUsed)
     /\ (big /\ Emit) => PrintT("LONG " \o ToJson([m |-> t, f |-> 0, r |-> IF r.free THEN "F" ELSE "O",
                                 n |-> FoldLeft(LAMBDA a, c : a + Len(c), 0, r.c)]))

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
