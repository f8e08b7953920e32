-------------------------------- MODULE WbText --------------------------------
(***************************************************************************)
(* Identifiers of any text.  A word grows by one character or doubles in   *)
(* length, and stands everywhere an identifier can.  What is printed for   *)
(* it has to be what is printed for the placeholder "qz", with the         *)
(* placeholder replaced by the word.                                       *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth, Chars, Doubling
VARIABLES theWord, stepNo
rest == <<theWord, stepNo>>
vars == <<rest, due>>

AllChars == Alphabet \ {"@"}
SomeChars == {"a", "Z", "_", "9", "$", " ", "'", "<", "é", "漢", "°"}
FewChars == SomeChars \cup {c \in Alphabet : Width(c) = 4}

Starts1 == theWord = "" /\ stepNo = 0
Grow == /\ stepNo < MaxDepth /\ stepNo' = stepNo + 1
        /\ \/ \E c \in Some(Chars) : theWord' = theWord \o c
           \/ Doubling /\ theWord # "" /\ Len(theWord) < 3000 /\ theWord' = theWord \o theWord

(***************************************************************************)
(* Everywhere: the names that contain the word w                           *)
(***************************************************************************)
Cls(w) == TagType("class", N1(w))
Sub(t, w) == Within(Name(Simple(t)), Simple(w))
Tpl1(w, a) == Instance(Simple(w), <<a>>, TRUE)
\* the word several times, and another one between: references to the word and across it
Everywhere == [w \in Any |->
  << Variable(N1(w), "3", "A", TInt),
     Variable(N1("x"), "3", "B", Cls(w)),
     Function(N1(w), <<Cls(w), Cls("b"), Cls(w), Pointer("P", "E", "B", Cls(w))>>, FALSE),
     Variable(Within(Within(N1("x"), Simple(w)), Simple("b")), "2", "A", TagType("enum", Sub("b", w))),
     Function(Name(Instance(Simple(w), <<TypeArg(Cls(w))>>, FALSE)), <<TagType("struct", Name(Tpl1(w, TypeArg(Cls("a")))))>>, FALSE),
     Variable(N1("x"), "3", "A", TagType("union", Name(Instance(Simple("t"), <<TypeArg(Cls(w)), AliasArg(Sub("y", w)), TypeArg(Cls(w))>>, TRUE)))),
     Method(Within(Name(StructorPiece(FALSE)), Simple(w)), <<Pointer("A", "E", "B", Cls(w))>>),
     Method(Within(Name(StructorPiece(TRUE)), Tpl1(w, TypeArg(TInt))), <<>>),
     Function(Name(LiteralPiece(w)), <<Cls(w)>>, FALSE),
     Variable(N1("x"), "3", "A", CustomType(Simple(w))),
     PointerVariable(N1("x"), "3", "E", "A", Pointer("P", "E", "A", CustomType(Simple(w))), <<>>),
     PointerVariable(N1("x"), "3", "E", "Q", MemberPtr("P", "E", "Q", N1(w), Cls(w)), NameTok(N1(w))),
     Function(N1("f"), <<MemberFnPtr("P", N1(w), MemberFn), FnPointer("P", FnTypeItem(NoThis, "A", <<Result("A", Cls(w))>>, <<Cls(w)>>, FALSE, FALSE))>>, FALSE),
     FunctionSymbol(N2("f", w), "Q", ClassOf("Q"), NoAdjust, This("E", "", "B"), "A", <<Result("A", Cls(w))>>, <<>>, FALSE, FALSE),
     Table("_7", "`vftable'", N1(w), "6", "B", <<N1(w)>>),
     Untyped("_R3", "`RTTI Class Hierarchy Descriptor'", N2("b", w)),
     BaseDescriptor(0, -1, 0, 64, N1(w)),
     Descriptor("A", Cls(w)), TypeInfoName("A", TagType("struct", N2("b", w))),
     GuardSym(TRUE, TRUE, 1, Within(N1(w), Local(2, Function(N1(w), <<Cls(w)>>, FALSE)))),
     VcallSym(8, "A", N1(w)),
     DynOfName(TRUE, N2(w, "b")),
     DynOfVariable(FALSE, Variable(N1(w), "3", "A", Cls(w)), "A", TRUE),
     Variable(Within(N1(w), Local(3, Function(N2(w, "b"), <<Cls(w)>>, FALSE))), "3", "A", TInt),
     Variable(Within(Within(N1("x"), Simple(w)), Anon(w)), "3", "A", Cls("b")),
     Variable(N1("x"), "3", "A", TagType("class", Name(Tpl1("t", SymArg("1", Variable(N2("v", w), "3", "A", Cls(w)), <<>>))))),
     Function(N2("f", w), <<Pointer("P", "E", "A", ArrayType(<<2>>, "", Cls(w)))>>, TRUE) >>]

Mark == "qz"
SubstituteF == [t \in Any, w \in Any |->
  LET step(a, c) == IF c = "z" /\ a.q THEN [t |-> a.t \o w, q |-> FALSE]
                    ELSE IF c = "q" THEN [t |-> a.t, q |-> TRUE]
                    ELSE [t |-> a.t \o (IF a.q THEN "q" ELSE "") \o c, q |-> FALSE]
  IN FoldLeft(step, [t |-> "", q |-> FALSE], CharsOf(t)).t]

Normal == TLCEval([i \in 1..Len(Everywhere[Mark]) |->
             [k \in {0, 2, 512} |-> Shown(Mangle(Everywhere[Mark][i].tok, "never").out, k)]])
\* what behaves like the placeholder: no operator or template of its own, distinct from the other words used
Proper(w) == /\ w \notin {"a", "b", "t", "f", "x", "y", "v", "A", "B", "ns", "b", "C"}
             /\ SubSeq(w, 1, 1) \notin {"?"} \cup Digit
             /\ LastOf(w) \in WordEnd
LawfulHere ==
  theWord = "" \/
  LET all == TLCEval(Everywhere[theWord])
  IN \A i \in 1..Len(all) :
       LET texts == TLCEval(Spellings(all[i]))
           distinct == SetToSeq({texts[j] : j \in 1..4})
       IN /\ Proper(theWord) =>
               /\ Law("round trip", texts[1], RoundTrips(all[i], texts[1]))
               /\ \A j \in 1..Len(distinct), k \in {0, 2, 512} :
                    Law("identifier " \o ToString(i), distinct[j],
                        Shown(distinct[j], k) = [Normal[i][k] EXCEPT !.t = SubstituteF[@, theWord]])
          /\ Proper(theWord) => Vector(distinct, FlagsUsed)
          /\ Proper(theWord) \/ \A j \in 1..Len(distinct) : Vector(<<distinct[j]>>, FlagsUsed)

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
