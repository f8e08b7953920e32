------------------------------- MODULE WbDecl -------------------------------
(***************************************************************************)
(* Declarations: every field of a function or variable encoding against       *)
(* every other.  A state is a declaration in which some fields have been   *)
(* changed from their defaults, one per step, in the order of the fields;  *)
(* depth n covers every combination of n fields.                           *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth, Kinds     \* Kinds \subseteq {"fn", "var"}
VARIABLES theDecl, stepNo, lastField      \* lastField: the last field changed
rest == <<theDecl, stepNo, lastField>>
vars == <<rest, due>>

Default(kind) ==
  [kind |-> kind, name |-> N1("f"), class |-> "Y", adj |-> NoAdjust, this |-> This("E", "", "A"), cc |-> "A",
   ret |-> <<Result("", TVoid)>>, params |-> <<>>, va |-> FALSE, ne |-> FALSE, externc |-> FALSE,
   sc |-> "3", ext |-> "E", cv |-> "A", ty |-> TInt]

FnPtrTo(ps) == FnPointer("P", FnTypeItem(NoThis, "A", <<Result("", TChar)>>, ps, FALSE, FALSE))
MemPtr == MemberPtr("P", "E", "R", N1("A"), TInt)
MemFnPtr == MemberFnPtr("P", N1("A"), MemberFn)
ArrPtr == Pointer("P", "E", "B", ArrayType(<<3, 4>>, "", TInt))
Conversion == Within(Name(ConvPiece), Simple("A"))

Names == {N2("g", "A"), Within(Name(StructorPiece(FALSE)), Simple("A")), Within(Name(StructorPiece(TRUE)), Simple("A")),
          Within(Name(OpPiece("H", "operator+")), Simple("A")), Conversion,
          Name(Instance(Simple("f"), <<TypeArg(TInt)>>, FALSE)), Name(LiteralPiece("_k")),
          Within(Within(Name(StructorPiece(FALSE)), Instance(Simple("t"), <<TypeArg(TInt)>>, TRUE)), Simple("ns")),
          Within(Within(N1("h"), Local(2, Method(N2("m", "A"), <<>>))), Simple("ns"))}
Classes == {"9"} \cup Upper
Thunks == { [class |-> c, adj |-> [code |-> IntText(n), text |-> "`adjustor{" \o NatStr(n) \o "}'"]] :
              c \in {"G", "H", "O", "P", "W", "X"}, n \in {0, 8, 300} }
     \cup { [class |-> "$" \o c, adj |-> [code |-> IntText(a) \o IntText(b),
                                          text |-> "`vtordisp{" \o NatStr(a) \o ", " \o NatStr(b) \o "}'"]] :
              c \in {"0", "1", "2", "3", "4", "5"}, a \in {-4, 16}, b \in {0, 20} }
     \cup { [class |-> "$R" \o c, adj |-> [code |-> IntText(8) \o IntText(a) \o IntText(b) \o IntText(12),
                      text |-> "`vtordispex{8, " \o NatStr(a) \o ", " \o NatStr(b) \o ", 12}'"]] :
              c \in {"0", "1", "2", "3", "4", "5"}, a \in {-8, 9}, b \in {0, 31} }
\* classes are named in full in Thunks; here only those without adjustments
PlainClasses == {c \in Classes : ClassOf(c).adj = ""}
Thises == {This(e, r, c) : e \in {"", "E", "I", "F", "EI", "EIF", "IF"}, r \in {"", "G", "H"}, c \in {"A", "B", "C", "D"}}
AllCc == Upper \ {"K", "L", "R", "T", "U", "V", "X", "Y", "Z"}   \* the others have no meaning
Results == {<<>>, <<Result("", TInt)>>, <<Result("A", ClassA)>>, <<Result("B", StructB)>>, <<Result("", TIntPtr)>>,
            <<Result("", FnPtrTo(<<TInt>>))>>, <<Result("", ArrPtr)>>, <<Result("", MemPtr)>>, <<Result("", MemFnPtr)>>,
            <<Result("D", TagType("enum", N1("E")))>>, <<Result("A", CustomType(Simple("foo")))>>,
            <<Result("C", TplOfA)>>, <<Result("", FnPointer("Q", FnTypeItem(NoThis, "G", <<Result("", FnPtrTo(<<>>))>>, <<TChar>>, TRUE, TRUE)))>>}
ParamLists == {<<TInt>>, <<TInt, TChar>>, <<TIntPtr, TIntPtr>>, <<ClassA, TIntPtr, ClassA>>, <<FnPtrTo(<<TIntPtr>>), TIntPtr>>,
               <<ArrPtr, MemPtr, MemFnPtr>>, <<TplOfA, StructB, TInt>>, <<Pointer("$$Q", "E", "A", ClassA)>>,
               <<TInt, TVoid>>}
VarTypes == {TChar, ClassA, TplOfA, TIntPtr, ArrPtr, FnPtrTo(<<TInt, TIntPtr>>), MemPtr, MemFnPtr, Pointer("Q", "E", "A", TIntPtr),
             Pointer("A", "E", "B", ClassA), Pointer("P", "EI", "A", Pointer("P", "EF", "B", TInt)),
             CustomType(Simple("foo")), TagType("enum", N2("E", "ns")), ArrayType(<<2, 0>>, "", TIntPtr)}

Order == <<"start", "name", "class", "this", "cc", "ret", "params", "va", "ne", "externc", "sc", "type", "ext", "cv">>
At(f) == IndexOf(Order, f)
Change(f, new) == At(lastField) < At(f) /\ theDecl' = new /\ lastField' = f /\ stepNo' = stepNo + 1
Starts1 == theDecl \in {Default(k) : k \in Kinds} /\ stepNo = 0 /\ lastField = "start"
Grow ==
  /\ stepNo < MaxDepth
  /\ \/ \E n \in Some(Names) : Change("name", [theDecl EXCEPT !.name = n])
     \/ /\ theDecl.kind = "fn"
        /\ \/ \E c \in Some(PlainClasses \ {"Y"}) : Change("class", [theDecl EXCEPT !.class = c])
           \/ \E t \in Some(Thunks) : Change("class", [theDecl EXCEPT !.class = t.class, !.adj = t.adj])
           \/ \E t \in Some(Thises) : Change("this", [theDecl EXCEPT !.this = t])
           \/ \E c \in Some(AllCc \ {"A"}) : Change("cc", [theDecl EXCEPT !.cc = c])
           \/ \E r \in Some(Results) : Change("ret", [theDecl EXCEPT !.ret = r])
           \/ \E p \in Some(ParamLists) : Change("params", [theDecl EXCEPT !.params = p])
           \/ Change("va", [theDecl EXCEPT !.va = TRUE])
           \/ Change("ne", [theDecl EXCEPT !.ne = TRUE])
           \/ Change("externc", [theDecl EXCEPT !.externc = TRUE])
     \/ /\ theDecl.kind = "var"
        /\ \/ \E c \in Some({"0", "1", "2", "4"}) : Change("sc", [theDecl EXCEPT !.sc = c])
           \/ \E t \in Some(VarTypes) : Change("type", [theDecl EXCEPT !.ty = t])
           \/ \E e \in Some({"", "I", "F", "EI", "EF", "EIF", "IF"}) : Change("ext", [theDecl EXCEPT !.ext = e])
           \/ \E c \in Some({"B", "C", "D"}) : Change("cv", [theDecl EXCEPT !.cv = c])

ClassMeaning == IF Len(theDecl.class) = 1 THEN ClassOf(theDecl.class)
                ELSE Class(CASE LastOf(theDecl.class) \in {"0", "1"} -> "private"
                             [] LastOf(theDecl.class) \in {"2", "3"} -> "protected" [] OTHER -> "public",
                           FALSE, TRUE, IF Len(theDecl.class) = 2 THEN "vtordisp" ELSE "vtordispex")
IsMember == theDecl.class \notin {"C", "D", "K", "L", "S", "T", "Y", "Z"}
Meaning == [ClassMeaning EXCEPT !.externc = @ \/ theDecl.externc]
Code == (IF theDecl.externc THEN "$$J0" ELSE "") \o theDecl.class
\* an extern "C" symbol of class 9 has nothing behind its class
Bare == SymItem(Lit("?") \o DeclTok(theDecl.name) \o Lit(Code),
                [k |-> "fsym", sig |-> [NoSignature EXCEPT !.cl = Meaning], thunk |-> FALSE, adjust |-> "",
                 qn |-> Resolved(theDecl.name.sem)])
IsConversion == theDecl.name = Conversion
Symbols ==
  IF theDecl.kind = "fn"
  THEN IF IsConversion /\ (theDecl.ret = <<>> \/ theDecl.class = "9") THEN <<>>
       ELSE IF theDecl.class = "9" THEN <<Bare>>
       ELSE <<FunctionSymbol(theDecl.name, Code, Meaning, theDecl.adj, IF IsMember THEN theDecl.this ELSE NoThis, theDecl.cc,
                             theDecl.ret, theDecl.params, theDecl.va, theDecl.ne)>>
  ELSE IF theDecl.name.sem[Len(theDecl.name.sem)].k \in {"structor", "conv"} THEN <<>>
  ELSE IF theDecl.ty.sem.k = "ptr" THEN <<PointerVariable(theDecl.name, theDecl.sc, theDecl.ext, theDecl.cv, theDecl.ty, theDecl.ty.again)>>
       ELSE <<Variable(theDecl.name, theDecl.sc, theDecl.cv, theDecl.ty)>>

LawfulHere == LawfulAll(Symbols)

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
