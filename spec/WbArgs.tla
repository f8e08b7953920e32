-------------------------------- MODULE WbArgs --------------------------------
(***************************************************************************)
(* Template argument lists grow by one argument at a time, of every form,  *)
(* and are put everywhere a template name can occur.  The list printed has    *)
(* to be the arguments, each as it is printed alone, in order.             *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth, Few         \* Few: a smaller pool of arguments, for longer lists
VARIABLES theList, stepNo
rest == <<theList, stepNo>>
vars == <<rest, due>>

VarInt == Variable(N1("v"), "3", "A", TInt)
MemFun == Method(N2("m", "A"), <<TIntPtr>>)
Arr == ArrayType(<<3, 0>>, "", TInt)
\* an auto argument that is a type: only the type is printed
AutoTypeArg(t, u) == Arg(Lit("$M") \o t.tok \o u.tok, u.sem)
AutoNullArg(t, code, offs) == [NullArg(code, offs) EXCEPT !.tok = Lit("$M") \o t.tok \o Lit(code \o Join([i \in 1..Len(offs) |-> IntText(offs[i])]))]
AutoOtherArg(t, a) == [a EXCEPT !.tok = Lit("$M") \o t.tok \o @]
MemFunPtr == MemberFnPtr("P", N1("A"), MemberFn)

Core == << TypeArg(TInt), TypeArg(ClassA), IntArg(-1), IntArg(16), SymArg("1", VarInt, <<>>), Sep("$$V"),
           TypeArg(TplOfA), AliasArg(N2("u", "ns")), NullArg("F", <<1, -2>>), QualTypeArg("B", TInt) >>
More == << TypeArg(TVoid), TypeArg(Prim("_N", "bool")), TypeArg(TIntPtr), TypeArg(VoidFn), TypeArg(MemberFn), TypeArg(Arr),
           TypeArg(CustomType(Simple("foo"))), TypeArg(StructB), TypeArg(FnPointer("P", VoidFn)),
           TypeArg(TagType("enum", N2("E", "A"))), TypeArg(Pointer("$$Q", "E", "B", ClassA)),
           TypeArg(MemberPtr("P", "E", "Q", N1("A"), TInt)), TypeArg(MemberFnPtr("P", N1("A"), MemberFn)),
           TypeArg(TagType("class", Name(Instance(Simple("e"), <<>>, TRUE)))), TypeArg(Prim("$$T", "std::nullptr_t")),
           DecayArg(ClassA), DecayArg(Arr), QualTypeArg("D", ClassA), QualTypeArg("A", TplOfA), QualTypeArg("C", Arr),
           AliasArg(N1("u")), AliasArg(TplInt), AliasArg(N2("A", "A")),
           IntArg(0), IntArg(1), IntArg(10), IntArg(1000000),
           SymArg("1", MemFun, <<>>), SymArg("1", Variable(N2("v", "A"), "2", "B", ClassA), <<>>),
           SymArg("1", Table("_7", "`vftable'", N1("A"), "6", "B", <<>>), <<>>),
           SymArg("H", MemFun, <<4>>), SymArg("I", MemFun, <<4, -8>>), SymArg("J", MemFun, <<0, 12, 100>>), ValueArg(VarInt),
           ValueArg(MemFun), NullArg("H", <<3>>), NullArg("I", <<1, -1>>), NullArg("J", <<1, 2, 3>>), NullArg("F", <<0, 11>>),
           NullArg("G", <<1, -1, 300>>), NullArg("G", <<0, 0, 0>>),
           AutoIntArg(TInt, 5), AutoIntArg(TIntPtr, -7), AutoSymArg(TIntPtr, "1", VarInt, <<>>),
           AutoSymArg(MemberFnPtr("P", N1("A"), MemberFn), "H", MemFun, <<4>>), AutoTypeArg(TInt, TChar),
           AutoSymArg(MemFunPtr, "1", MemFun, <<>>), AutoSymArg(MemFunPtr, "I", MemFun, <<4, -8>>), AutoSymArg(MemFunPtr, "J", MemFun, <<0, -12, 100>>),
           AutoNullArg(MemFunPtr, "H", <<3>>), AutoNullArg(MemFunPtr, "I", <<1, -1>>), AutoNullArg(MemFunPtr, "J", <<1, 2, 0>>),
           AutoNullArg(MemberPtr("P", "E", "Q", N1("A"), TInt), "F", <<0, 11>>), AutoNullArg(TIntPtr, "G", <<1, -1, 300>>),
           AutoOtherArg(TIntPtr, ValueArg(VarInt)), AutoOtherArg(ClassA, DecayArg(Arr)), AutoOtherArg(TInt, QualTypeArg("D", ClassA)),
           AutoOtherArg(Prim("_P", "auto"), AliasArg(N1("u"))), AutoIntArg(Prim("_T", "decltype(auto)"), 1000000),
           Sep("$S"), Sep("$$Z"), Sep("$$$V") >>
PoolArgs == IF Few THEN Core ELSE Core \o More

Starts1 == theList = <<>> /\ stepNo = 0
Grow == stepNo < MaxDepth /\ stepNo' = stepNo + 1 /\ \E i \in Some(1..Len(PoolArgs)) : theList' = Append(theList, i)

Args0 == [i \in 1..Len(theList) |-> PoolArgs[theList[i]]]

(***************************************************************************)
(* How each argument is printed on its own                                 *)
(***************************************************************************)
Alone(a) == LET t == Shown(Mangle(Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("t"), <<a>>, TRUE)))).tok,
                                  "never").out, 0).t
            IN SubSeq(t, 9, Len(t) - 3)           \* class t<...> x
ArgTexts == [i \in 1..Len(PoolArgs) |-> Alone(PoolArgs[i])]
ListText == LET keep == SelectSeq(theList, LAMBDA i : ~PoolArgs[i].sep)
            IN "<" \o Join([i \in 1..Len(keep) |-> (IF i > 1 THEN ", " ELSE "") \o ArgTexts[keep[i]]]) \o ">"

Use(sym, text) == [sym |-> sym, text |-> text]
Tpl(n, learn) == Instance(Simple(n), Args0, learn)
ClassT == TagType("class", Name(Tpl("t", TRUE)))
Uses ==
  LET l == ListText
      c == "class t" \o l
  IN << Use(Variable(N1("x"), "3", "A", ClassT), c \o " x"),
        Use(Function(Name(Tpl("f", FALSE)), <<>>, FALSE), "void __cdecl f" \o l \o "(void)"),
        Use(Variable(Within(N1("x"), Tpl("t", TRUE)), "3", "A", TInt), "int t" \o l \o "::x"),
        Use(Function(N1("f"), <<ClassT, TInt, ClassT, TagType("struct", Within(Name(Tpl("t", TRUE)), Simple("A")))>>, FALSE),
            "void __cdecl f(" \o c \o ", int, " \o c \o ", struct A::t" \o l \o ")"),
        Use(Function(Name(Instance(OpPiece("H", "operator+"), Args0, FALSE)), <<>>, FALSE),
            "void __cdecl operator+" \o l \o "(void)"),
        Use(Method(Within(Name(Instance(StructorPiece(FALSE), Args0, FALSE)), Tpl("t", TRUE)), <<>>),
            "public: void __cdecl t" \o l \o "::t" \o l \o l \o "(void)"),
        Use(Method(Within(Name(StructorPiece(TRUE)), Tpl("t", TRUE)), <<>>),
            "public: void __cdecl t" \o l \o "::~t" \o l \o "(void)"),
        Use(Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("u"),
              <<TypeArg(ClassT), TypeArg(ClassT), AliasArg(Name(Tpl("w", TRUE)))>>, TRUE)))),
            "class u<" \o c \o ", " \o c \o ", w" \o l \o "> x"),
        Use(Function(Name(Instance(LiteralPiece("_k"), Args0, FALSE)), <<>>, FALSE),
            "void __cdecl operator \"\"_k" \o l \o "(void)"),
        Use(Table("_7", "`vftable'", Name(Tpl("t", TRUE)), "6", "B", <<Name(Tpl("t", TRUE))>>),
            "const t" \o l \o "::`vftable'{for `t" \o l \o "'}"),
        Use(TypeInfoName("A", ClassT), c \o " `RTTI Type Descriptor Name'"),
        Use(FunctionSymbol(Within(Name(Instance(ConvPiece, Args0, FALSE)), Simple("A")), "Q", ClassOf("Q"), NoAdjust,
                           This("E", "", "A"), "A", <<Result("", TInt)>>, <<>>, FALSE, FALSE),
            "public: int __cdecl A::operator" \o l \o " int(void)") >>

LawfulHere ==
  \A i \in 1..Len(Uses) :
    LET u == Uses[i]
        t == Mangle(u.sym.tok, "never").out
    IN /\ Holds(u.sym, FlagsUsed, Deep)
       /\ Law("arguments " \o u.text, t, Shown(t, 0) = [r |-> "O", t |-> u.text])

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
