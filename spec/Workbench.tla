----------------------------- MODULE Workbench -----------------------------
(***************************************************************************)
(* Specification to code: the workbench builds C++ entities step by step.  *)
(*                                                                         *)
(* A state is an item (a type, a name or a symbol) with its meaning and    *)
(* its encoding; a step wraps it into a larger item.  In every state the     *)
(* item is completed to symbols in every way of the current focus, and for *)
(* each of them TLC checks the laws below on the specification and prints  *)
(* the mangled name with what it has to demangle to, for the harness to    *)
(* replay on the implementation.                                           *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS Focus,        \* which part of the language is grown
          MaxDepth,     \* how many steps
          Wide          \* rich choices at every step, not only the first

VARIABLES theItem, stepNo, lastStep
rest == <<theItem, stepNo, lastStep>>
vars == <<rest, due>>

(***************************************************************************)
(* Sizes of the parameter sets: rich for the first step, smaller later.    *)
(***************************************************************************)
Rich == Wide \/ stepNo = 0
Letters == IF Rich THEN {"P", "Q", "R", "S", "A", "$$Q"} ELSE {"P", "Q", "A"}
Exts == IF Rich THEN {"", "E", "I", "F", "EI", "EF", "EIF"} ELSE {"", "E"}
Cvs == IF Rich THEN {"A", "B", "C", "D"} ELSE {"A", "B"}
MemCvs == IF Rich THEN {"Q", "R", "S", "T"} ELSE {"Q", "R"}
Bounds == IF Rich THEN {<<1>>, <<0>>, <<11>>, <<3, 4>>, <<0, 10, 256>>, <<65536>>} ELSE {<<5>>, <<0, 2>>}
Ccs == IF Rich THEN {"A", "C", "E", "G", "I", "M", "O", "Q", "S", "W"} ELSE {"A", "E"}
Thiss == {NoThis, This("E", "", "A"), This("EIF", "G", "D"), This("", "H", "B")}
LaterThis == {NoThis, This("E", "G", "B")}

(***************************************************************************)
(* Growing types                                                           *)
(***************************************************************************)
GrowPointer ==
  /\ theItem.sort = "type"
  /\ IF IsFn(theItem)
     THEN ~theItem.this /\ \E l \in Some(Letters) : theItem' = FnPointer(l, theItem)
     ELSE \E l \in Some(Letters), e \in Some(Exts), c \in Some(Cvs) : theItem' = Pointer(l, e, c, theItem)
GrowMemberPointer ==
  /\ theItem.sort = "type"
  /\ \E class \in Some({N2("C", "ns"), TplInt}) :
       IF IsFn(theItem)
       THEN theItem.this /\ \E l \in Some({"P", "Q", "R", "S"}) : theItem' = MemberFnPtr(l, class, theItem)
       ELSE \E l \in Some({"P", "Q"}), e \in Some(Exts), c \in Some(MemCvs) : theItem' = MemberPtr(l, e, c, class, theItem)
GrowArray ==
  /\ theItem.sort = "type" /\ ~IsFn(theItem)
  /\ \E b \in Some(Bounds), cv \in Some({"", "B"}) : theItem' = ArrayType(b, cv, theItem)
GrowResult ==
  /\ theItem.sort = "type" /\ ~IsFn(theItem)
  /\ \E cc \in Some(Ccs), th \in Some(IF Rich THEN Thiss ELSE LaterThis), ne \in Some(BOOLEAN),
        rq \in Some(IF NeedsMark(theItem) THEN {"A", "B"} ELSE {""}) :
       \E ps \in Some({<<>>, <<TIntPtr>>}) :
         theItem' = FnTypeItem(th, cc, <<Result(rq, theItem)>>, ps, FALSE, ne)
GrowParam ==
  /\ theItem.sort = "type" /\ ~IsFn(theItem) /\ theItem # TVoid
  /\ \E th \in Some(LaterThis), ps \in Some({<<theItem>>, <<TInt, theItem>>, <<theItem, TChar, theItem>>}), va \in Some(BOOLEAN) :
       theItem' = FnTypeItem(th, "A", <<Result("", TVoid)>>, ps, va, FALSE)
GrowArg ==
  /\ theItem.sort = "type"
  /\ \E args \in Some({ <<TypeArg(theItem)>>, <<TypeArg(TInt), TypeArg(theItem)>>, <<TypeArg(theItem), IntArg(0)>> })
                 \cup (IF IsFn(theItem) THEN {}
                       ELSE { <<DecayArg(theItem), Sep("$$V")>>, <<QualTypeArg("B", theItem)>> }) :
       theItem' = Name(Instance(Simple("t"), args, TRUE))

(***************************************************************************)
(* Growing names                                                           *)
(***************************************************************************)
GrowTag ==
  /\ theItem.sort = "name"
  /\ \E k \in Some({"class", "struct", "union", "enum"}) : theItem' = TagType(k, theItem)
GrowScope ==
  /\ theItem.sort = "name"
  /\ \E p \in Some({Simple("a"), Simple("b"), Anon("0x1a2b3c4d5e6f"), Anon("0x1a2b3c4d5e6e"), Anon("BA"), Anon(""), Instance(Simple("t"), <<TypeArg(ClassA)>>, TRUE),
               Local(1, Function(N1("f"), <<>>, FALSE)), Local(0, Method(N2("m", "A"), <<ClassA>>))}) :
       theItem' = Within(theItem, p)
GrowAlias ==
  /\ theItem.sort = "name"
  /\ theItem' = Name(Instance(Simple("u"), <<AliasArg(theItem)>>, TRUE))

(***************************************************************************)
(* Growing symbols into names again                                        *)
(***************************************************************************)
GrowFunction ==
  /\ theItem.sort = "type" /\ ~IsFn(theItem) /\ theItem # TVoid
  /\ \E n \in Some({N1("f"), N2("g", "A")}) : theItem' = Function(n, <<theItem, TIntPtr, theItem>>, FALSE)
GrowLocal ==
  /\ theItem.sort = "sym" /\ theItem.sem.k = "fsym"
  /\ \E n \in Some({0, 3, 16}) : theItem' = Within(N1("s"), Local(n, theItem))
GrowSymArg ==
  /\ theItem.sort = "sym" /\ theItem.sem.k \in {"fsym", "var"}
  /\ \E a \in Some({SymArg("1", theItem, <<>>), SymArg("H", theItem, <<4>>), SymArg("I", theItem, <<0, -3>>),
               SymArg("J", theItem, <<1, 2, 300>>), ValueArg(theItem)}) :
       theItem' = Name(Instance(Simple("v"), <<a, TypeArg(ClassA)>>, TRUE))

(***************************************************************************)
(* Foci: where growth starts and which steps it takes                      *)
(***************************************************************************)
Base ==
  CASE Focus = "types"  -> AllPrims \cup {TagType(k, N1("A")) : k \in {"class", "struct", "union", "enum"}}
                             \cup {CustomType(Simple("foo")), VoidFn, MemberFn, StructB}
    [] Focus = "deep"   -> {TInt, ClassA, StructB, TplOfA, TIntPtr, VoidFn, MemberFn}
    [] Focus = "scopes" -> {N1("x"), TplInt, Within(N1("x"), Anon("1")), N2("a", "b")}
    [] OTHER            -> {TInt, ClassA}

Starts1 == theItem \in Base /\ stepNo = 0 /\ lastStep = ""
Step(name, Wrap) == Wrap /\ stepNo' = stepNo + 1 /\ lastStep' = name
TypeSteps == \/ Step("pointer", GrowPointer) \/ Step("member", GrowMemberPointer) \/ Step("array", GrowArray)
             \/ Step("result", GrowResult) \/ Step("param", GrowParam)
NameSteps == Step("tag", GrowTag) \/ Step("scope", GrowScope) \/ Step("alias", GrowAlias)
SymSteps == Step("function", GrowFunction) \/ Step("local", GrowLocal) \/ Step("symarg", GrowSymArg)
Grow ==
  /\ stepNo < MaxDepth
  /\ CASE Focus = "types" -> TypeSteps
       [] Focus = "deep" -> TypeSteps \/ Step("arg", GrowArg) \/ NameSteps \/ SymSteps
       [] Focus = "scopes" -> NameSteps \/ SymSteps

(***************************************************************************)
(* Completing the item                                                     *)
(***************************************************************************)
Completed ==
  CASE theItem.sort = "type" ->
         IF IsFn(theItem)
         THEN << Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("t"), <<TypeArg(theItem)>>, TRUE)))),
                 Function(N1("f"), <<BareFn(theItem)>>, FALSE) >>
         ELSE << AsVariable(theItem),
                 Function(N1("f"), IF IsVoid(theItem) THEN <<TInt, theItem>> ELSE <<theItem, theItem>>, FALSE),
                 FunctionSymbol(N2("g", "A"), "U", ClassOf("U"), NoAdjust, This("E", "", "B"), "E",
                                <<Result(IF NeedsMark(theItem) THEN "B" ELSE "", theItem)>>, <<>>, FALSE, FALSE),
                 Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("t"), <<TypeArg(theItem)>>, TRUE)))) >>
    [] theItem.sort = "name" -> << Variable(theItem, "3", "A", TInt), Function(theItem, <<TagType("class", theItem)>>, FALSE) >>
    [] theItem.sort = "sym" -> << theItem >>

LawfulHere == LawfulAll(Completed)

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
