------------------------------- MODULE Pools -------------------------------
(***************************************************************************)
(* Parts that the workbenches combine things with.                         *)
(***************************************************************************)
EXTENDS Laws

CONSTANTS Lazy,         \* examine a state in a step of its own, so that TLC's workers share the work
          Deep,         \* which further laws are checked
          FlagSets      \* with which flags: "none", "single", "pair" or "all"

\* due: is the state still to be examined?  (Only growing states are due, examined ones do not grow.)
VARIABLE due
InitDue == due = Lazy
GrowDue == due = Lazy /\ due' = Lazy
Examine(rest) == Lazy /\ due /\ due' = FALSE /\ UNCHANGED rest

\* In simulation a step takes one of its choices at random; otherwise all of them.
Some(S) == IF Lazy \/ S = {} THEN S ELSE {RandomElement(S)}

FlagsUsed == CASE FlagSets = "single" -> SingleFlags [] FlagSets = "pair" -> PairFlags
               [] FlagSets = "none" -> <<0>> [] OTHER -> AllFlags
HoldsF == [c \in Any |-> Holds(c, FlagsUsed, Deep)]
LawfulAll(cs) == \A i \in 1..Len(cs) : HoldsF[cs[i]]

TInt == Prim("H", "int")
TVoid == Prim("X", "void")
TChar == Prim("D", "char")
AllPrims ==
  {Prim(c, PrimName[c]) : c \in DOMAIN PrimName} \cup
  {Prim("_" \o c, PrimName2[c]) : c \in DOMAIN PrimName2} \cup {Prim("$$T", "std::nullptr_t")}
N1F == [a \in Any |-> Name(Simple(a))]
N1(a) == N1F[a]
N2F == [a \in Any, b \in Any |-> Within(Name(Simple(a)), Simple(b))]
N2(a, b) == N2F[a, b]
TIntPtr == Pointer("P", "E", "A", TInt)
ClassA == TagType("class", N1("A"))
StructB == TagType("struct", N2("B", "ns"))
TplInt == Name(Instance(Simple("t"), <<TypeArg(TInt)>>, TRUE))
TplOfA == TagType("class", Within(Name(Instance(Simple("t"), <<TypeArg(ClassA), IntArg(5)>>, TRUE)), Simple("ns")))
VoidFn == FnTypeItem(NoThis, "A", <<Result("", TVoid)>>, <<>>, FALSE, FALSE)
MemberFn == FnTypeItem(This("E", "", "B"), "A", <<Result("", TInt)>>, <<TChar>>, FALSE, FALSE)

FunctionF == [name \in Any, params \in Any, va \in Any |->
  FunctionSymbol(name, "Y", ClassOf("Y"), NoAdjust, NoThis, "A", <<Result("", TVoid)>>, params, va, FALSE)]
Function(name, params, va) == FunctionF[name, params, va]
MethodF == [name \in Any, params \in Any |->
  FunctionSymbol(name, "Q", ClassOf("Q"), NoAdjust, This("E", "", "A"), "A", <<Result("", TVoid)>>, params, FALSE, FALSE)]
Method(name, params) == MethodF[name, params]


\* in result position a question mark has to go before these
NeedsMarkF == [t \in Any |-> t.sem.k \in {"tag", "custom", "arr"}]
NeedsMark(t) == NeedsMarkF[t]
\* a parameter list that starts with void is the empty one
IsVoid(t) == t.sem.k = "prim" /\ t.sem.name = "void"
AsVariableF == [t \in Any |->
  IF t.sem.k # "ptr" THEN Variable(N1("x"), "3", "A", t)
  ELSE PointerVariable(N1("x"), "3", "E", "A", t, t.again)]
AsVariable(t) == AsVariableF[t]
=============================================================================
