------------------------------ MODULE WbSpecial ------------------------------
(***************************************************************************)
(* Operators and compiler-generated names: every code in every kind of     *)
(* surrounding.  A state is a code, then the code with one more choice.    *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS Groups        \* \subseteq {"operators", "structors", "tables", "others", "codes"}
VARIABLES theSort, theSym, theMore
rest == <<theSort, theSym, theMore>>
vars == <<rest, due>>

(***************************************************************************)
(* The spelling of every documented code, listed the other way around: by  *)
(* what it means.                                                          *)
(***************************************************************************)
Spelled0 ==
  << <<"new","2">>, <<"delete","3">>, <<"=","4">>, <<">>","5">>, <<"<<","6">>, <<"!","7">>, <<"==","8">>, <<"!=","9">>,
     <<"[]","A">>, <<"->","C">>, <<"*","D">>, <<"++","E">>, <<"--","F">>, <<"-","G">>, <<"+","H">>, <<"&","I">>,
     <<"->*","J">>, <<"/","K">>, <<"%","L">>, <<"<","M">>, <<"<=","N">>, <<">","O">>, <<">=","P">>, <<",","Q">>,
     <<"()","R">>, <<"~","S">>, <<"^","T">>, <<"|","U">>, <<"&&","V">>, <<"||","W">>, <<"*=","X">>, <<"+=","Y">>,
     <<"-=","Z">>, <<"/=","_0">>, <<"%=","_1">>, <<">>=","_2">>, <<"<<=","_3">>, <<"&=","_4">>, <<"|=","_5">>,
     <<"^=","_6">>, <<"new[]","_U">>, <<"delete[]","_V">>, <<"co_await","__L">>, <<"<=>","__M">> >>
Generated ==
  << <<"vbase dtor","_D">>, <<"vector deleting dtor","_E">>, <<"default constructor closure","_F">>,
     <<"scalar deleting dtor","_G">>, <<"vector ctor iterator","_H">>, <<"vector dtor iterator","_I">>,
     <<"vector vbase ctor iterator","_J">>, <<"virtual displacement map","_K">>, <<"eh vector ctor iterator","_L">>,
     <<"eh vector dtor iterator","_M">>, <<"eh vector vbase ctor iterator","_N">>, <<"copy ctor closure","_O">>,
     <<"local vftable ctor closure","_T">>, <<"managed vector ctor iterator","__A">>,
     <<"managed vector dtor iterator","__B">>, <<"EH vector copy ctor iterator","__C">>,
     <<"EH vector vbase copy ctor iterator","__D">>, <<"vector copy ctor iterator","__G">>,
     <<"vector vbase copy constructor iterator","__H">>, <<"managed vector vbase copy constructor iterator","__I">> >>
Spelling(e) == IF \E i \in 1..Len(Spelled0) : Spelled0[i] = e
               THEN "operator" \o (IF e[1] \in {"new", "delete", "new[]", "delete[]", "co_await"} THEN " " ELSE "") \o e[1]
               ELSE "`" \o e[1] \o "'"
Codes == Spelled0 \o Generated
CodeIdx == 1..Len(Codes)
OpPieceOf(i) == OpPiece(Codes[i][2], Spelling(Codes[i]))

ASSUME \A i, j \in CodeIdx : i # j => Codes[i][2] # Codes[j][2] /\ Spelling(Codes[i]) # Spelling(Codes[j])

(***************************************************************************)
(* Surroundings                                                            *)
(***************************************************************************)
Scopes == << <<>>, <<Simple("A")>>, <<Simple("A"), Simple("ns")>>, <<Instance(Simple("t"), <<TypeArg(TInt)>>, TRUE)>>,
             <<Instance(Simple("t"), <<TypeArg(ClassA)>>, TRUE), Anon("0x1"), Simple("ns")>>,
             <<Simple("A"), Local(3, Function(N1("f"), <<ClassA>>, FALSE))>> >>
Enclosed(name, ps) == FoldLeft(Within, name, ps)
InScope(piece, i) == Enclosed(Name(piece), Scopes[i])
ScopeText(i) == LET t == <<"", "A::", "ns::A::", "t<int>::", "ns::`anonymous namespace'::t<class A>::",
                           "`void __cdecl f(class A)'::`3'::A::">> IN t[i]

\* a nullary function of that name
Nullary(name) == Function(name, <<>>, FALSE)
WithArgs(piece) == Instance(piece, <<TypeArg(TInt), IntArg(7)>>, FALSE)

Operators ==
  { [sort |-> "operator", sym |-> Nullary(InScope(OpPieceOf(i), s)),
     more |-> "void __cdecl " \o ScopeText(s) \o Spelling(Codes[i]) \o "(void)"] : i \in CodeIdx, s \in 1..Len(Scopes) }
  \cup { [sort |-> "operator", sym |-> Nullary(InScope(WithArgs(OpPieceOf(i)), s)),
          more |-> "void __cdecl " \o ScopeText(s) \o Spelling(Codes[i]) \o "<int, 7>(void)"] :
           i \in CodeIdx, s \in 1..Len(Scopes) }
  \* as a template argument, and as what a dynamic initializer belongs to
  \cup { [sort |-> "operator", more |-> "class t<&void __cdecl " \o Spelling(Codes[i]) \o "(void)> x",
          sym |-> Variable(N1("x"), "3", "A", TagType("class", Name(Instance(Simple("t"),
                    <<SymArg("1", Nullary(Name(OpPieceOf(i))), <<>>)>>, TRUE))))] : i \in CodeIdx }
  \* literal operators
  \cup { [sort |-> "operator", sym |-> Nullary(InScope(LiteralPiece(t), s)),
          more |-> "void __cdecl " \o ScopeText(s) \o "operator \"\"" \o t \o "(void)"] :
           t \in {"_km", "_", "x", "_0x", "_1_", "__d", "_K", "7", "0_", "é", "_é9", "operator", "~", "$x", "a b"}, s \in 1..Len(Scopes) }

LastClass == <<"", "A", "A", "t<int>", "t<class A>", "A">>
Structors ==
  { [sort |-> "structor", sym |-> Nullary(InScope(StructorPiece(b), s)),
     more |-> "void __cdecl " \o ScopeText(s) \o (IF b THEN "~" ELSE "") \o LastClass[s] \o "(void)"] :
       b \in BOOLEAN, s \in 2..Len(Scopes) }
  \cup { [sort |-> "structor", sym |-> Nullary(InScope(WithArgs(StructorPiece(b)), s)),
     more |-> "void __cdecl " \o ScopeText(s) \o (IF b THEN "~" ELSE "") \o LastClass[s] \o "<int, 7>(void)"] :
       b \in BOOLEAN, s \in 2..Len(Scopes) }
Conversions ==
  { [sort |-> "conversion", more |-> "",
     sym |-> FunctionSymbol(InScope(p, s), "Q", ClassOf("Q"), NoAdjust, This("E", "", "B"), "A", <<r>>, <<>>, FALSE, FALSE)] :
      s \in 2..Len(Scopes), p \in {ConvPiece, WithArgs(ConvPiece)},
      r \in {Result("", TInt), Result("", Prim("_N", "bool")), Result("", TIntPtr), Result("B", ClassA), Result("A", TplOfA),
             Result("", FnPointer("P", VoidFn)), Result("", Pointer("A", "E", "B", ArrayType(<<2>>, "", TInt))),
             Result("", MemberFnPtr("P", N1("A"), MemberFn))} }

TableNames == << <<"_7","`vftable'">>, <<"_8","`vbtable'">>, <<"_S","`local vftable'">>, <<"_R4","`RTTI Complete Object Locator'">> >>
Targets == << <<>>, <<N1("B")>>, <<N2("B", "ns")>>, <<TplInt>> >>
TargetText == <<"", "{for `B'}", "{for `ns::B'}", "{for `t<int>'}">>
CvText(c) == CASE c = "A" -> "" [] c = "B" -> "const " [] c = "C" -> "volatile " [] OTHER -> "const volatile "
\* the names of tables are written without the operator piece
ScopeName(i) == Enclosed([Name(Scopes[i][1]) EXCEPT !.sort = "name"], Tail(Scopes[i]))
SpecialScopes == 2..Len(Scopes)
Tables ==
  { [sort |-> "table", sym |-> Table(TableNames[t][1], TableNames[t][2], ScopeName(s), n, cv, Targets[g]),
     more |-> CvText(cv) \o ScopeText(s) \o TableNames[t][2] \o TargetText[g]] :
       t \in 1..4, s \in SpecialScopes, n \in {"6", "7"}, cv \in {"A", "B", "C", "D"}, g \in 1..Len(Targets) }

UntypedNames == << <<"_R2","`RTTI Base Class Array'">>, <<"_R3","`RTTI Class Hierarchy Descriptor'">> >>
SomeVars == << Variable(N1("v"), "3", "A", TInt), Variable(N2("v", "A"), "2", "A", ClassA),
               PointerVariable(N1("v"), "3", "E", "A", TIntPtr, TIntPtr.again) >>
SomeVarText == <<"int v", "public: static class A A::v", "int *v">>
Dyn(d) == IF d THEN "dynamic atexit destructor" ELSE "dynamic initializer"
Others ==
  { [sort |-> "untyped", sym |-> Untyped(UntypedNames[t][1], UntypedNames[t][2], ScopeName(s)),
     more |-> ScopeText(s) \o UntypedNames[t][2]] : t \in 1..2, s \in SpecialScopes }
  \cup { [sort |-> "bcd", sym |-> BaseDescriptor(a, b, 64, 3, ScopeName(s)),
          more |-> ScopeText(s) \o "`RTTI Base Class Descriptor at (" \o NatStr(a) \o ", " \o NatStr(b) \o ", 64, 3)'"] :
           a \in {0, 8}, b \in {-1, 12}, s \in SpecialScopes }
  \cup { [sort |-> "rtti", sym |-> Descriptor(rq, t), more |-> ""] :
           rq \in {"", "A", "B", "D"}, t \in {TInt, ClassA, StructB, TplOfA, TIntPtr} }
  \cup { [sort |-> "typeinfo", sym |-> TypeInfoName(rq, t), more |-> ""] :
           rq \in {"", "A", "B", "D"}, t \in {TInt, ClassA, StructB, TplOfA, TIntPtr, FnPointer("P", VoidFn)} }
  \cup { [sort |-> "guard", sym |-> GuardSym(th, vi, n, ScopeName(s)),
          more |-> ScopeText(s) \o (IF th THEN "`local static thread guard'" ELSE "`local static guard'")
                   \o (IF n < 1 THEN "" ELSE "{" \o NatStr(n) \o "}")] :
           th \in BOOLEAN, vi \in BOOLEAN, n \in {-1, 0, 1, 10, 11, 300}, s \in SpecialScopes }
  \cup { [sort |-> "vcall", sym |-> VcallSym(n, cc, ScopeName(s)),
          more |-> "[thunk]: __" \o CcName(cc) \o " " \o ScopeText(s) \o "`vcall'{" \o NatStr(n) \o ", {flat}}"] :
           n \in {0, 8, 1000}, cc \in {"A", "E", "G"}, s \in SpecialScopes }
  \cup { [sort |-> "dynvar", sym |-> DynOfVariable(d, SomeVars[v], "A", m),
          more |-> "void __cdecl `" \o Dyn(d) \o " for `" \o SomeVarText[v] \o "''(void)"] :
           d \in BOOLEAN, m \in BOOLEAN, v \in 1..3 }
  \cup { [sort |-> "dynname", sym |-> DynOfName(d, Enclosed(N1("v"), Scopes[s])),
          more |-> "void __cdecl `" \o Dyn(d) \o " for '" \o ScopeText(s) \o "v''(void)"] :
           d \in BOOLEAN, s \in 1..Len(Scopes) }
  \cup { [sort |-> "md5", sym |-> SymItem(Lit(t), [k |-> "md5", t |-> [s |-> t, b |-> Len(t)]]), more |-> t] :
           t \in {"??@@", "??@0123456789abcdef0123456789abcdef@", "??@0123@??_R4@"} }

Named0 == (IF "operators" \in Groups THEN Operators \cup Conversions ELSE {})
          \cup (IF "structors" \in Groups THEN Structors ELSE {})
          \cup (IF "tables" \in Groups THEN Tables ELSE {})
          \cup (IF "others" \in Groups THEN Others ELSE {})

(***************************************************************************)
(* Every two- and three-letter code there could be: either documented, or  *)
(* an error, or tolerated.                                                 *)
(***************************************************************************)
CodeChars == Digit \cup Upper \cup {"_", "$", "?", "@", "a"}
Tried(code) == {"??" \o code \o p \o q : p \in {"A@@", "@", "01A@@", "?A@@3HA@@"}, q \in {"YAXXZ", "6B@", "8", "5", "4IA", "$BA@AA", ""}}
Meaningful(code) == \E i \in CodeIdx : Codes[i][2] = code
RawLaw(code, t) ==
  LET r == Shown(t, 0)
  IN /\ Vector(<<t>>, FlagsUsed)
     /\ (t = "??" \o code \o "A@@YAXXZ" /\ Meaningful(code)) =>
          Law("code", t, r = [r |-> "O", t |-> "void __cdecl A::" \o
                                Spelling(Codes[CHOOSE i \in CodeIdx : Codes[i][2] = code]) \o "(void)"])

Starts1 == /\ theMore = "" /\ theSym = <<>> /\ theSort = "start"
Grow == /\ theSort = "start"
        /\ \/ \E x \in Named0 : theSort' = x.sort /\ theSym' = x.sym /\ theMore' = x.more
           \/ /\ "codes" \in Groups
              /\ \E g \in {"", "_", "__", "_R", "?", "$"}, c \in CodeChars :
                   theSort' = "code" /\ theSym' = g \o c /\ theMore' = ""

LawfulHere ==
  CASE theSort = "start" -> TRUE
    [] theSort = "code" -> \A t \in Tried(theSym) : RawLaw(theSym, t)
    [] OTHER -> /\ Holds(theSym, FlagsUsed, Deep)
                /\ theMore # "" => Law("spelling " \o theMore, Mangle(theSym.tok, "never").out,
                                    Shown(Mangle(theSym.tok, "never").out, 0) = [r |-> "O", t |-> theMore])

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
