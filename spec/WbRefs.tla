-------------------------------- MODULE WbRefs --------------------------------
(***************************************************************************)
(* Back-references: sequences of names or of parameter types grow past the *)
(* ten entries of the tables.  Every spelling, with any of the possible    *)
(* references taken, denotes the same; a digit beyond the table is an      *)
(* error.                                                                  *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth, Table1    \* "names" or "params"
VARIABLES theList, stepNo
rest == <<theList, stepNo>>
vars == <<rest, due>>

(***************************************************************************)
(* Names: components of scopes, of classes and of templates                *)
(***************************************************************************)
Letters == <<"a", "b", "c", "e", "g", "h", "i", "j", "k", "l", "m", "n", "o", "q">>
Inst(args) == Instance(Simple("t"), args, TRUE)
InTpl(n) == Inst(<<TypeArg(TagType("class", N1(n)))>>)
OpAdd == Method(Within(Name(OpPiece("H", "operator+")), Simple("a")), <<TagType("class", N1("a"))>>)
OpInst == Inst(<<AutoSymArg(TIntPtr, "1", OpAdd, <<>>), SymArg("1", OpAdd, <<>>)>>)
Pieces ==
  [i \in 1..Len(Letters) |-> Simple(Letters[i])] \o
  << InTpl("a"), InTpl("b"), Inst(<<TypeArg(TInt)>>),
     Inst(<<TypeArg(TagType("class", N1("a"))), TypeArg(TagType("class", N1("b"))), TypeArg(TagType("struct", N2("a", "b")))>>),
     Inst(<<TypeArg(TagType("class", Name(InTpl("a")))), TypeArg(TagType("class", N1("a")))>>),
     Instance(Simple("a"), <<TypeArg(TagType("class", N1("a")))>>, TRUE),
     Instance(Simple("u"), <<TypeArg(FnPointer("P", FnTypeItem(NoThis, "A", <<Result("", TVoid)>>,
                               <<TIntPtr, TagType("class", N1("c")), TIntPtr>>, FALSE, FALSE)))>>, TRUE),
     Inst(<<SymArg("1", OpAdd, <<>>), TypeArg(TagType("class", N1("b"))), TypeArg(TagType("class", N1("a")))>>),
     Inst(<<AutoSymArg(TIntPtr, "1", OpAdd, <<>>), TypeArg(TagType("class", N1("c"))), TypeArg(TagType("class", N1("c")))>>),
     Inst(<<ValueArg(OpAdd), NullArg("H", <<3>>), TypeArg(TagType("class", Within(N1("z"), OpInst)))>>),
     Anon("0x1a2b3c4d5e6f"), Anon("0x1a2b3c4d5e6e"), Anon("a"),
     Local(1, Function(N1("f"), <<TagType("class", N1("a")), TagType("class", N1("p"))>>, FALSE)) >>

(***************************************************************************)
(* Parameter types: of one character and longer ones                       *)
(***************************************************************************)
FnP(ps) == FnPointer("P", FnTypeItem(NoThis, "A", <<Result("", TVoid)>>, ps, FALSE, FALSE))
FnV(ps) == FnPointer("P", FnTypeItem(NoThis, "A", <<Result("", TVoid)>>, ps, TRUE, FALSE))
FnR(r, ps) == FnPointer("P", FnTypeItem(NoThis, "A", <<Result("", r)>>, ps, FALSE, TRUE))
PtrTo(t) == Pointer("P", "E", "A", t)
TypesP == << TInt, TChar, Prim("_N", "bool"), Prim("_J", "__int64"), TIntPtr, PtrTo(TChar), PtrTo(TIntPtr), Pointer("Q", "E", "B", TInt),
             Pointer("A", "E", "A", ClassA), ClassA, StructB, TplOfA, Pointer("P", "", "A", TInt), Pointer("P", "I", "A", TInt),
             FnP(<<>>), FnP(<<TIntPtr>>), FnP(<<TIntPtr, PtrTo(TChar), TIntPtr>>), FnP(<<FnP(<<ClassA, TIntPtr>>), TIntPtr>>),
             MemberFnPtr("P", N1("A"), FnTypeItem(This("E", "", "A"), "A", <<Result("", TIntPtr)>>, <<TIntPtr, ClassA>>, FALSE, FALSE)),
             MemberPtr("P", "E", "Q", N1("A"), TIntPtr), Pointer("P", "E", "A", ArrayType(<<2>>, "", TInt)),
             TagType("class", Name(Instance(Simple("u"), <<TypeArg(FnP(<<TIntPtr, TIntPtr>>)), TypeArg(TIntPtr)>>, TRUE))),
             FnV(<<TIntPtr, PtrTo(TChar)>>), FnR(FnP(<<TIntPtr>>), <<TIntPtr, ClassA>>), FnR(ClassA, <<>>),
             MemberFnPtr("P", N1("A"), FnTypeItem(This("E", "", "A"), "A", <<Result("", TVoid)>>, <<ClassA, TIntPtr>>, TRUE, FALSE)),
             TagType("enum", N1("A")), Prim("$$T", "std::nullptr_t") >>

PoolRefs == IF Table1 = "names" THEN Pieces ELSE TypesP
Starts1 == theList = <<>> /\ stepNo = 0
Grow == stepNo < MaxDepth /\ stepNo' = stepNo + 1 /\ \E i \in Some(1..Len(PoolRefs)) : theList' = Append(theList, i)

ItemsOf == [l \in Any |-> [i \in 1..Len(l) |-> PoolRefs[l[i]]]]
IsTypeName(i) == i <= Len(Pieces) - 4            \* the others only enclose
ClassOfPiece == [i \in Any |-> IF IsTypeName(i) THEN TagType("class", Name(Pieces[i]))
                                ELSE TagType("class", Within(N1("z"), Pieces[i]))]
ClassesOf == [l \in Any |-> [i \in 1..Len(l) |-> ClassOfPiece[l[i]]]]
ChainOf == [base \in Any, l \in Any |-> FoldLeft(Within, base, ItemsOf[l])]

(***************************************************************************)
(* Where the list is put                                                   *)
(***************************************************************************)
TypeArgs == [ts \in Any |-> [i \in 1..Len(ts) |-> TypeArg(ts[i])]]
InClass == [args \in Any |-> Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("t"), args, TRUE))))]
OneFunction == [l \in Any, ps \in Any |-> Function(ChainOf[N1("f"), l], ps, FALSE)]
NameUses == [l \in Any |->
  << Variable(ChainOf[N1("x"), l], "3", "A", TInt),
     Function(N1("f"), ClassesOf[l], FALSE),
     Method(N2("f", "a"), <<TagType("class", ChainOf[N1("y"), l]), TagType("struct", N1("a"))>>),
     InClass[TypeArgs[ClassesOf[l]]],
     Function(Name(Instance(Simple("f"), TypeArgs[ClassesOf[l]], FALSE)), ClassesOf[l], FALSE),
     Table("_7", "`vftable'", ChainOf[N1("a"), l], "6", "B", <<ChainOf[N1("a"), l]>>),
     Variable(Within(ChainOf[N1("x"), l], Local(1, OneFunction[l, ClassesOf[l]])), "3", "A", TInt),
     PointerVariable(N1("x"), "3", "E", "B", MemberPtr("P", "E", "Q", ChainOf[N1("y"), l], ClassesOf[l][1]),
                     NameTok(ChainOf[N1("y"), l])) >>]
ParamUses == [l \in Any |->
  << Function(N1("f"), ItemsOf[l], FALSE),
     Function(N1("f"), Append(ItemsOf[l], FnP(ItemsOf[l])), FALSE),
     Function(N1("f"), <<FnP(ItemsOf[l])>> \o ItemsOf[l], FALSE),
     Function(N1("f"), <<FnV(ItemsOf[l])>> \o ItemsOf[l], TRUE),
     Function(N1("f"), <<FnR(FnP(ItemsOf[l]), ItemsOf[l])>> \o ItemsOf[l], FALSE),
     InClass[<<TypeArg(FnP(ItemsOf[l])), TypeArg(FnTypeItem(NoThis, "A", <<Result("", TVoid)>>, ItemsOf[l], TRUE, FALSE))>>],
     Function(Name(Instance(Simple("f"), <<TypeArg(FnP(ItemsOf[l]))>>, FALSE)), ItemsOf[l], FALSE),
     Method(Within(N1("f"), Local(1, Function(N1("g"), ItemsOf[l], FALSE))), ItemsOf[l]) >>]
UsesOf == [l \in Any |-> IF l = <<>> THEN <<>> ELSE IF Table1 = "names" THEN NameUses[l] ELSE ParamUses[l]]

(***************************************************************************)
(* A digit behind the list: it denotes what the writer has remembered      *)
(* there, and nothing else.                                                *)
(***************************************************************************)
Listed == [l \in Any |-> LET ts == IF Table1 = "names" THEN ClassesOf[l] ELSE ItemsOf[l]
                          IN [i \in 1..Len(ts) |-> ts[i].tok]]
Written == [l \in Any, more \in Any, end \in Any |->
  Mangle(Lit("?") \o IdTok("f") \o Lit("@YAX") \o <<[k |-> "ps", ps |-> Listed[l] \o more]>> \o Lit(end), "odd")]
DanglingLaw == [l \in Any |->
  \A n \in 0..9 :
    LET e == TLCEval(Written[l, <<>>, ""])
        table == IF Table1 = "names" THEN e.nm ELSE e.pm
        digit == IF Table1 = "names" THEN "V" \o DigitStr[n + 1] \o "@" ELSE DigitStr[n + 1]
        text == TLCEval(Written[l, <<Lit(digit)>>, "@Z"].out)
        r == TLCEval(Shown(text, 0))
    IN /\ Law("dangling", text, (r.r = "O") = (n < Len(table)))
       /\ (n >= Len(table)) => Law("reason", text, Told(text, 0).w = <<IF Table1 = "names" THEN "reference" ELSE "malformed">>)
       /\ (n < Len(table) /\ Table1 = "params") =>
            Law("denotes", text, r = Shown(Written[l, <<Lit(table[n + 1])>>, "@Z"].out, 0))
       /\ Vector(<<text>>, <<0>>)]

LawfulHere ==
  /\ LawfulAll(UsesOf[theList])
  /\ "dangling" \in Deep => DanglingLaw[theList]

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
