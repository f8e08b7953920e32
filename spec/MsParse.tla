------------------------------- MODULE MsParse -------------------------------
(***************************************************************************)
(* The decoder of Microsoft-mangled names as a transition system.          *)
(*                                                                         *)
(* A decoder state holds the input, the position of the next character,    *)
(* the two back-reference tables of the current template context, the      *)
(* number of syntax nodes built, the nesting level and the bytes of names  *)
(* rendered for back-references.  Every production                         *)
(* of the grammar is an operator from states to states; it leaves the      *)
(* decoded item in v, or clears ok when the input is not well formed.      *)
(***************************************************************************)
EXTENDS MsRender

\* Documented resource limits are "about two thousand nodes" and "several hundred
\* levels": between Lo and Hi the specification leaves it open whether a name is refused.
NodesLo == 1500
NodesHi == 2500
NestLo  == 350
NestHi  == 600
\* likewise the text of all names rendered for back-references together: "about four MiB"
TextLo  == 2 * OutputLimit
TextHi  == 8 * OutputLimit

Start(str, fl) ==
  LET cs == CharsOf(str) IN
  [ str |-> str, in |-> cs, n |-> Len(str), fl |-> fl,
    ascii |-> \A i \in 1..Len(cs) : cs[i] \in Ascii,
    p |-> 1,                \* next character
    nm |-> <<>>,            \* memorised names: [key, id]
    pm |-> <<>>,            \* memorised parameter types
    nn |-> 0,               \* nodes
    ng |-> 0, mg |-> 0,     \* nesting level, deepest level so far
    rn |-> 0,               \* bytes of names rendered so far
    ok |-> TRUE, why |-> "", v |-> <<>> ]

Fail(s, why) == [s EXCEPT !.ok = FALSE, !.why = why]
Ret(s, v) == [s EXCEPT !.v = v]
Adv(s, k) == [s EXCEPT !.p = @ + k]
Then(s, F(_)) == IF s.ok THEN F(s) ELSE s
Node(s, k) == IF s.nn + k > NodesHi THEN Fail(s, "nodes") ELSE [s EXCEPT !.nn = @ + k]
Enter(s) == IF s.ng >= NestHi THEN Fail(s, "nesting")
            ELSE [s EXCEPT !.ng = @ + 1, !.mg = IF s.ng + 1 > @ THEN s.ng + 1 ELSE @]
Leave(s) == IF s.ok THEN [s EXCEPT !.ng = @ - 1] ELSE s

AtEnd(s) == s.p > s.n
C(s) == IF s.p <= s.n THEN s.in[s.p] ELSE ""
Starts(s, t) == s.p + Len(t) - 1 <= s.n /\ SubSeq(s.str, s.p, s.p + Len(t) - 1) = t
Eat(s, t, why) == IF Starts(s, t) THEN Adv(s, Len(t)) ELSE Fail(s, why)
Skip(s, t) == IF Starts(s, t) THEN Adv(s, Len(t)) ELSE s

\* position of the next '@' (0: there is none)
NextAt(s) ==
  IF \E q \in s.p..s.n : s.in[q] = "@"
  THEN CHOOSE q \in s.p..s.n : s.in[q] = "@" /\ \A r \in s.p..(q - 1) : s.in[r] # "@"
  ELSE 0

\* the text between two positions, with its size in bytes
Slice(s, a, b) ==
  LET t == SubSeq(s.str, a, b) IN [s |-> t, b |-> IF s.ascii THEN Len(t) ELSE WidthOf(t)]
AsciiText(t) == [s |-> t, b |-> Len(t)]

NoClass == [acc |-> "", static |-> FALSE, virtual |-> FALSE, externc |-> FALSE,
            noparams |-> FALSE, adj |-> ""]

(***************************************************************************)
(* Numbers                                                                 *)
(*   <number> ::= [?] <digit>            digit d denotes d + 1             *)
(*            ::= [?] <hex digit>* @     A = 0 ... P = 15, modulo 2^64     *)
(***************************************************************************)
Number(s) ==
  LET neg == C(s) = "?"
      q == IF neg THEN s.p + 1 ELSE s.p
      c == IF q <= s.n THEN s.in[q] ELSE ""
  IN IF c \in Digit
     THEN [s EXCEPT !.p = q + 1,
                    !.v = [neg |-> neg, h |-> IF c = "9" THEN <<10>> ELSE <<DigitVal[c] + 1>>]]
     ELSE LET e == NextAt([s EXCEPT !.p = q])
          IN IF e = 0 \/ \E i \in q..(e - 1) : s.in[i] \notin Nibble THEN Fail(s, "number")
             ELSE [s EXCEPT !.p = e + 1,
                     !.v = [neg |-> neg, h |-> Mod64([i \in 1..(e - q) |-> NibbleVal[s.in[q + i - 1]]])]]

Unsigned(s) == Then(Number(s), LAMBDA a : IF a.v.neg THEN Fail(a, "unsigned") ELSE a)
Signed(s) == Then(Number(s), LAMBDA a : IF FitsI64(a.v.h) THEN a ELSE Fail(a, "signed"))

\* k signed numbers, as decimal strings
RECURSIVE SignedList
SignedList == [s \in Any, k \in Any, acc \in Any |->
  IF k = 0 THEN Ret(s, acc)
  ELSE Then(Signed(s), LAMBDA a : SignedList[a, k - 1, Append(acc, SignedDecimal(a.v.neg, a.v.h))])]

(***************************************************************************)
(* Qualifiers                                                              *)
(***************************************************************************)
CvOf(c) == CASE c \in {"A", "Q"} -> {} [] c \in {"B", "R"} -> {"const"}
             [] c \in {"C", "S"} -> {"volatile"} [] c \in {"D", "T"} -> {"const", "volatile"}

\* v = [q, member]
Quals(s) == IF C(s) \in {"A", "B", "C", "D", "Q", "R", "S", "T"}
            THEN Ret(Adv(s, 1), [q |-> CvOf(C(s)), member |-> C(s) \in {"Q", "R", "S", "T"}])
            ELSE Fail(s, "qualifiers")

\* E (64-bit), I (__restrict), F (__unaligned), each optional and in this order
ExtQuals(s) ==
  LET a == Skip(s, "E")
      b == Skip(a, "I")
      c == Skip(b, "F")
  IN Ret(c, (IF b.p > a.p THEN {"restrict"} ELSE {}) \cup (IF c.p > b.p THEN {"unaligned"} ELSE {}))

PointerCv(s) ==
  IF Starts(s, "$$Q") THEN Ret(Adv(s, 3), [q |-> {}, aff |-> "&&"])
  ELSE CASE C(s) = "A" -> Ret(Adv(s, 1), [q |-> {}, aff |-> "&"])
         [] C(s) = "P" -> Ret(Adv(s, 1), [q |-> {}, aff |-> "*"])
         [] C(s) = "Q" -> Ret(Adv(s, 1), [q |-> {"const"}, aff |-> "*"])
         [] C(s) = "R" -> Ret(Adv(s, 1), [q |-> {"volatile"}, aff |-> "*"])
         [] C(s) = "S" -> Ret(Adv(s, 1), [q |-> {"const", "volatile"}, aff |-> "*"])
         [] OTHER -> Fail(s, "pointer")

(***************************************************************************)
(* Codes                                                                   *)
(***************************************************************************)
PrimName == [c \in {"X","D","C","E","F","G","H","I","J","K","M","N","O"} |->
  CASE c = "X" -> "void" [] c = "D" -> "char" [] c = "C" -> "signed char"
    [] c = "E" -> "unsigned char" [] c = "F" -> "short" [] c = "G" -> "unsigned short"
    [] c = "H" -> "int" [] c = "I" -> "unsigned int" [] c = "J" -> "long"
    [] c = "K" -> "unsigned long" [] c = "M" -> "float" [] c = "N" -> "double"
    [] c = "O" -> "long double"]
PrimName2 == [c \in {"N","J","K","W","Q","S","U","P","T"} |->
  CASE c = "N" -> "bool" [] c = "J" -> "__int64" [] c = "K" -> "unsigned __int64"
    [] c = "W" -> "wchar_t" [] c = "Q" -> "char8_t" [] c = "S" -> "char16_t"
    [] c = "U" -> "char32_t" [] c = "P" -> "auto" [] c = "T" -> "decltype(auto)"]

\* Letters without a meaning are tolerated: nothing is printed for them.
CcName(c) == CASE c \in {"A", "B"} -> "cdecl" [] c \in {"C", "D"} -> "pascal"
               [] c \in {"E", "F"} -> "thiscall" [] c \in {"G", "H"} -> "stdcall"
               [] c \in {"I", "J"} -> "fastcall" [] c \in {"M", "N"} -> "clrcall"
               [] c \in {"O", "P"} -> "eabi" [] c = "Q" -> "vectorcall"
               [] c = "S" -> "swift" [] c = "W" -> "swiftasync" [] OTHER -> ""
CallConv(s) == IF AtEnd(s) THEN Fail(s, "calling convention") ELSE Ret(Adv(s, 1), CcName(C(s)))

OpBasic == [c \in {"2","3","4","5","6","7","8","9","A","C","D","E","F","G","H","I","J","K","L","M",
                   "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c = "2" -> "operator new" [] c = "3" -> "operator delete" [] c = "4" -> "operator="
    [] c = "5" -> "operator>>" [] c = "6" -> "operator<<" [] c = "7" -> "operator!"
    [] c = "8" -> "operator==" [] c = "9" -> "operator!=" [] c = "A" -> "operator[]"
    [] c = "C" -> "operator->" [] c = "D" -> "operator*" [] c = "E" -> "operator++"
    [] c = "F" -> "operator--" [] c = "G" -> "operator-" [] c = "H" -> "operator+"
    [] c = "I" -> "operator&" [] c = "J" -> "operator->*" [] c = "K" -> "operator/"
    [] c = "L" -> "operator%" [] c = "M" -> "operator<" [] c = "N" -> "operator<="
    [] c = "O" -> "operator>" [] c = "P" -> "operator>=" [] c = "Q" -> "operator,"
    [] c = "R" -> "operator()" [] c = "S" -> "operator~" [] c = "T" -> "operator^"
    [] c = "U" -> "operator|" [] c = "V" -> "operator&&" [] c = "W" -> "operator||"
    [] c = "X" -> "operator*=" [] c = "Y" -> "operator+=" [] c = "Z" -> "operator-="]
OpUnder == [c \in {"0","1","2","3","4","5","6","D","E","F","G","H","I","J","K","L","M","N","O",
                   "T","U","V"} |->
  CASE c = "0" -> "operator/=" [] c = "1" -> "operator%=" [] c = "2" -> "operator>>="
    [] c = "3" -> "operator<<=" [] c = "4" -> "operator&=" [] c = "5" -> "operator|="
    [] c = "6" -> "operator^=" [] c = "D" -> "`vbase dtor'" [] c = "E" -> "`vector deleting dtor'"
    [] c = "F" -> "`default constructor closure'" [] c = "G" -> "`scalar deleting dtor'"
    [] c = "H" -> "`vector ctor iterator'" [] c = "I" -> "`vector dtor iterator'"
    [] c = "J" -> "`vector vbase ctor iterator'" [] c = "K" -> "`virtual displacement map'"
    [] c = "L" -> "`eh vector ctor iterator'" [] c = "M" -> "`eh vector dtor iterator'"
    [] c = "N" -> "`eh vector vbase ctor iterator'" [] c = "O" -> "`copy ctor closure'"
    [] c = "T" -> "`local vftable ctor closure'" [] c = "U" -> "operator new[]"
    [] c = "V" -> "operator delete[]"]
OpDouble == [c \in {"A","B","C","D","G","H","I","L","M"} |->
  CASE c = "A" -> "`managed vector ctor iterator'" [] c = "B" -> "`managed vector dtor iterator'"
    [] c = "C" -> "`EH vector copy ctor iterator'" [] c = "D" -> "`EH vector vbase copy ctor iterator'"
    [] c = "G" -> "`vector copy ctor iterator'" [] c = "H" -> "`vector vbase copy constructor iterator'"
    [] c = "I" -> "`managed vector vbase copy constructor iterator'"
    [] c = "L" -> "operator co_await" [] c = "M" -> "operator<=>"]
\* A code without a meaning is tolerated: it names a function with an empty name.
OpName(group, c) == LET t == CASE group = 0 -> OpBasic [] group = 1 -> OpUnder [] OTHER -> OpDouble
                    IN IF c \in DOMAIN t THEN t[c] ELSE ""

Class(acc, st, vi, adj) == [NoClass EXCEPT !.acc = acc, !.static = st, !.virtual = vi, !.adj = adj]
\* near and far variants share a meaning
ClassOf(c) ==
  CASE c = "9" -> [NoClass EXCEPT !.externc = TRUE, !.noparams = TRUE]
    [] c \in {"A","B"} -> Class("private", FALSE, FALSE, "")
    [] c \in {"C","D"} -> Class("private", TRUE, FALSE, "")
    [] c \in {"E","F"} -> Class("private", FALSE, TRUE, "")
    [] c \in {"G","H"} -> Class("private", FALSE, FALSE, "static")
    [] c \in {"I","J"} -> Class("protected", FALSE, FALSE, "")
    [] c \in {"K","L"} -> Class("protected", TRUE, FALSE, "")
    [] c \in {"M","N"} -> Class("protected", FALSE, TRUE, "")
    [] c \in {"O","P"} -> Class("protected", FALSE, TRUE, "static")
    [] c \in {"Q","R"} -> Class("public", FALSE, FALSE, "")
    [] c \in {"S","T"} -> Class("public", TRUE, FALSE, "")
    [] c \in {"U","V"} -> Class("public", FALSE, TRUE, "")
    [] c \in {"W","X"} -> Class("public", FALSE, TRUE, "static")
    [] c \in {"Y","Z"} -> NoClass                          \* not a member
\* v = [cl, member]: does a this-qualifier follow?
FunctionClass(s) ==
  IF C(s) = "$"
  THEN LET a == Skip(Adv(s, 1), "R")
           adj == IF a.p = s.p + 2 THEN "vtordispex" ELSE "vtordisp"
       IN CASE C(a) \in {"0", "1"} -> Ret(Adv(a, 1), [cl |-> Class("private", FALSE, TRUE, adj), member |-> TRUE])
            [] C(a) \in {"2", "3"} -> Ret(Adv(a, 1), [cl |-> Class("protected", FALSE, TRUE, adj), member |-> TRUE])
            [] C(a) \in {"4", "5"} -> Ret(Adv(a, 1), [cl |-> Class("public", FALSE, TRUE, adj), member |-> TRUE])
            [] OTHER -> Fail(a, "function class")
  ELSE IF C(s) \in Upper \cup {"9"}
       THEN Ret(Adv(s, 1), [cl |-> ClassOf(C(s)),
                            member |-> C(s) \notin {"C","D","K","L","S","T","Y","Z"}])
       ELSE Fail(s, "function class")

(***************************************************************************)
(* Back-references to names: the first ten distinct names of a context.    *)
(***************************************************************************)
NameId(t, ft) == [k |-> "name", t |-> t, ft |-> ft, tp |-> <<>>]

Memorize(s, key, id) ==
  IF Len(s.nm) >= 10 \/ \E i \in 1..Len(s.nm) : s.nm[i].key = key THEN s
  ELSE LET a == Node(s, 1)
       IN IF a.ok THEN [a EXCEPT !.nm = Append(@, [key |-> key, id |-> id])] ELSE a

BackRefName(s) ==
  LET i == DigitVal[C(s)] + 1
  IN IF i <= Len(s.nm) THEN Ret(Adv(s, 1), s.nm[i].id) ELSE Fail(s, "back-reference")

\* the text an item renders to, as a name (with the caller's flags and without any)
AsName(s, Out(_, _)) ==
  LET o == Out(Empty, s.fl)
      g == IF s.fl.any THEN Out(Empty, NoFlags) ELSE o
  IN IF o.bad \/ g.bad THEN Fail(s, "output")
     ELSE IF s.rn + g.n > TextHi THEN Fail(s, "rendered")
     ELSE Ret([s EXCEPT !.rn = @ + g.n], NameId([s |-> Join(Chunks(o)), b |-> o.n], [s |-> Join(Chunks(g)), b |-> g.n]))

\* the rendered identifier is memorised; the value of the state is kept
MemorizeIdent(s, x) ==
  LET a == AsName(s, LAMBDA o, f : Ident[o, f, x])
  IN IF a.ok THEN Memorize(Ret(a, s.v), a.v.ft.s, a.v) ELSE a

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
\* <simple string> ::= <character>+ @        v: the text
SimpleString(s) ==
  LET e == NextAt(s)
  IN IF e = 0 \/ e = s.p THEN Fail(s, "simple name")
     ELSE Ret([s EXCEPT !.p = e + 1], Slice(s, s.p, e - 1))

SimpleName(s, memorize) ==
  Then(SimpleString(s), LAMBDA a :
    LET id == NameId(a.v, a.v)
        b == IF memorize THEN Memorize(a, a.v.s, id) ELSE a
    IN Then(b, LAMBDA x : Ret(Node(x, 1), id)))

AnonymousName == LET t == AsciiText("`anonymous namespace'") IN NameId(t, t)
\* ?A<key>@ : every key is another namespace, all are printed alike
AnonymousNamespace(s) ==
  LET e == NextAt(s)
  IN IF e = 0 THEN Fail(s, "anonymous namespace")
     ELSE Then(Memorize(s, SubSeq(s.str, s.p, e - 1), AnonymousName), LAMBDA a :
            Ret(Node([a EXCEPT !.p = e + 1], 1), AnonymousName))

\* ?<digit>? or ?@? or ?<number starting with B..P>@?
LocalScopeAhead(s) ==
  /\ C(s) = "?"
  /\ \E e \in (s.p + 2)..s.n :
       /\ s.in[e] = "?"
       /\ \A i \in (s.p + 1)..(e - 1) : s.in[i] # "?"
       /\ IF e = s.p + 2 THEN s.in[s.p + 1] \in Digit \cup {"@"}
          ELSE /\ s.in[e - 1] = "@"
               /\ s.in[s.p + 1] \in Nibble \ {"A"}
               /\ \A i \in (s.p + 1)..(e - 2) : s.in[i] \in Nibble


RECURSIVE ParseSymbol, Declarator, TypeOf, FnType, Template, ScopeChain, TemplateArgs, Params
RECURSIVE Dims, TypeName, SymbolIdent, LocalScope, ScopePiece, TemplateArg

LocalScope == [s \in Any |->
  Then(Number(Adv(s, 1)), LAMBDA a :
    IF a.v.neg THEN Fail(a, "local scope")
    ELSE Then(Eat(a, "?", "local scope"), LAMBDA b :
      Then(ParseSymbol[b], LAMBDA c :
        LET d == AsName(c, LAMBDA o, f :
                   W(Symbol[W(o, "`"), f, c.v], "'::`" \o Decimal(a.v.h) \o "'"))
        IN Then(d, LAMBDA x : Ret(Node(x, 1), x.v)))))]

ScopePiece == [s \in Any |->
  CASE C(s) \in Digit -> BackRefName(s)
    [] Starts(s, "?$") -> Template[s, TRUE]
    [] Starts(s, "?A") -> AnonymousNamespace(s)
    [] LocalScopeAhead(s) -> LocalScope[s]
    [] OTHER -> SimpleName(s, TRUE)]

\* the enclosing scopes, innermost first, up to '@'; v: the components, outermost first
ScopeChain == [s \in Any, qn \in Any |->
  IF C(s) = "@" THEN Ret(Node(Adv(s, 1), 2), qn)
  ELSE IF AtEnd(s) THEN Fail(s, "scope chain")
  ELSE Then(ScopePiece[s], LAMBDA a : ScopeChain[a, <<a.v>> \o qn])]

TypeIdent(s) ==
  CASE C(s) \in Digit -> BackRefName(s)
    [] Starts(s, "?$") -> Template[s, TRUE]
    [] OTHER -> SimpleName(s, TRUE)
TypeName == [s \in Any |->
  Then(TypeIdent(s), LAMBDA a : ScopeChain[a, <<a.v>>])]

FunctionIdent(s) ==
  LET group == IF Starts(s, "?__") THEN 2 ELSE IF Starts(s, "?_") THEN 1 ELSE 0
      a == Adv(s, 1 + group)
      c == C(a)
  IN CASE c = "" -> Fail(a, "function identifier")
       [] group = 0 /\ c \in {"0", "1"} ->
            Ret(Node(Adv(a, 1), 1), [k |-> "structor", dtor |-> (c = "1"), cls |-> <<>>, tp |-> <<>>])
       [] group = 0 /\ c = "B" ->
            Ret(Node(Adv(a, 1), 1), [k |-> "conv", ty |-> <<>>, tp |-> <<>>])
       [] group = 2 /\ c = "K" ->
            Then(SimpleString(Adv(a, 1)), LAMBDA b :
              Ret(Node(b, 1), [k |-> "lit", t |-> b.v, tp |-> <<>>]))
       [] c \in Digit \cup Upper /\ ~(group = 0 /\ c \in {"0", "1", "B"}) ->
            Ret(Node(Adv(a, 1), 1), [k |-> "op", s |-> OpName(group, c), tp |-> <<>>])
       [] OTHER -> Fail(a, "function identifier")

SymbolIdent == [s \in Any, simple \in Any |->
  CASE C(s) \in Digit -> BackRefName(s)
    [] Starts(s, "?$") -> Template[s, ~simple]
    [] C(s) = "?" -> FunctionIdent(s)
    [] OTHER -> SimpleName(s, simple)]

\* A template instantiation opens a fresh back-reference context and closes it again.
\* Where it names a type or a scope, its rendered form is memorised outside.
Template == [s \in Any, memorize \in Any |->
  Then(Enter(Adv(s, 2)), LAMBDA a :
    Then(SymbolIdent[[a EXCEPT !.nm = <<>>, !.pm = <<>>], TRUE], LAMBDA b :
      Then(TemplateArgs[b, <<>>], LAMBDA c :
        LET id == [b.v EXCEPT !.tp = <<c.v>>]
            d == [c EXCEPT !.nm = s.nm, !.pm = s.pm, !.v = id]
        IN IF ~memorize THEN Leave(d)
           ELSE IF id.k \in {"conv", "structor"} THEN Fail(d, "template name")
           ELSE Leave(MemorizeIdent(d, id)))))]

\* the name of a declared entity; constructors and destructors take their class from the scope
SymbolName == [s \in Any |->
  Then(SymbolIdent[s, TRUE], LAMBDA a :
    Then(ScopeChain[a, <<a.v>>], LAMBDA b :
      IF a.v.k # "structor" THEN b
      ELSE IF Len(b.v) < 2 THEN Fail(b, "structor without class")
      ELSE Ret(b, [b.v EXCEPT ![Len(b.v)].cls = <<b.v[Len(b.v) - 1]>>])))]

(***************************************************************************)
(* Template arguments                                                      *)
(***************************************************************************)
SymbolLast(x) == CASE x.k = "str" -> <<>>
                   [] x.k = "md5" -> <<NameId(x.t, x.t)>>
                   [] x.k = "typeinfo" -> <<>>
                   [] OTHER -> <<x.qn[Len(x.qn)]>>

Ref(sym, offs, amp) == [k |-> "ref", sym |-> sym, offs |-> offs, amp |-> amp]

\* after the introducer of a pointer to a symbol or member, with count offsets to come
RefArg == [s \in Any, count \in Any |->
  LET a == IF C(s) = "?"
           THEN Then(ParseSymbol[s], LAMBDA b :
                  LET l == SymbolLast(b.v)
                  IN IF l = <<>> THEN Fail(b, "template argument")
                     ELSE LET m == MemorizeIdent(b, l[1])
                          IN IF m.ok THEN Ret(m, <<b.v>>) ELSE m)
           ELSE Ret(s, <<>>)
  IN Then(a, LAMBDA b : Then(SignedList[b, count, <<>>], LAMBDA c :
       Ret(Node(c, 1), Ref(a.v, c.v, TRUE))))]

TemplateArg == [s \in Any, auto \in Any |->
  LET pre(t) == IF auto THEN Starts(s, t) ELSE Starts(s, "$" \o t)
      adv == IF auto THEN Adv(s, 1) ELSE Adv(s, 2)
  IN CASE Starts(s, "$$Y") -> Then(TypeName[Adv(s, 3)], LAMBDA a : Ret(a, [k |-> "alias", qn |-> a.v]))
       [] Starts(s, "$$B") -> TypeOf[Adv(s, 3), "drop"]
       [] Starts(s, "$$C") -> TypeOf[Adv(s, 3), "mangle"]
       [] pre("1") -> RefArg[adv, 0]
       [] pre("H") -> RefArg[adv, 1]
       [] pre("I") -> RefArg[adv, 2]
       [] pre("J") -> RefArg[adv, 3]
       [] Starts(s, "$E?") ->
            Then(ParseSymbol[Adv(s, 2)], LAMBDA a : Ret(Node(a, 1), Ref(<<a.v>>, <<>>, FALSE)))
       [] pre("F") -> Then(SignedList[adv, 2, <<>>], LAMBDA a : Ret(Node(a, 1), Ref(<<>>, a.v, FALSE)))
       [] pre("G") -> Then(SignedList[adv, 3, <<>>], LAMBDA a : Ret(Node(a, 1), Ref(<<>>, a.v, FALSE)))
       [] pre("0") -> Then(Number(adv), LAMBDA a :
            Ret(Node(a, 1), [k |-> "int", s |-> (IF a.v.neg THEN "-" ELSE "") \o Decimal(a.v.h)]))
       [] OTHER -> TypeOf[s, "drop"]]

TemplateArgs == [s \in Any, acc \in Any |->
  IF C(s) = "@" THEN Ret(Node(Adv(s, 1), 1), acc)
  ELSE IF Starts(s, "$S") THEN TemplateArgs[Adv(s, 2), acc]
  ELSE IF Starts(s, "$$V") \/ Starts(s, "$$Z") THEN TemplateArgs[Adv(s, 3), acc]
  ELSE IF Starts(s, "$$$V") THEN TemplateArgs[Adv(s, 4), acc]
  ELSE IF AtEnd(s) THEN Fail(s, "template arguments")
  ELSE IF Starts(s, "$M")
       THEN Then(TypeOf[Adv(s, 2), "drop"], LAMBDA a :
              Then(TemplateArg[a, TRUE], LAMBDA b : TemplateArgs[b, Append(acc, b.v)]))
       ELSE Then(TemplateArg[s, FALSE], LAMBDA b : TemplateArgs[b, Append(acc, b.v)])]

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
AddQuals(t, q) == [t EXCEPT !.q = @ \cup q]
SetQuals(t, q) == [t EXCEPT !.q = q]

Primitive(s) ==
  LET prim(x, name) == Ret(Node(x, 1), [k |-> "prim", q |-> {}, name |-> name])
  IN IF Starts(s, "$$T") THEN prim(Adv(s, 3), "std::nullptr_t")
     ELSE IF C(s) \in DOMAIN PrimName THEN prim(Adv(s, 1), PrimName[C(s)])
     ELSE IF C(s) = "_" /\ C(Adv(s, 1)) \in DOMAIN PrimName2
          THEN prim(Adv(s, 2), PrimName2[C(Adv(s, 1))])
     ELSE Fail(s, "type")

Tag == [s \in Any |->
  LET tag(x, name) == Then(TypeName[x], LAMBDA a :
                        Ret(Node(a, 1), [k |-> "tag", q |-> {}, tag |-> name, qn |-> a.v]))
  IN CASE C(s) = "T" -> tag(Adv(s, 1), "union")
       [] C(s) = "U" -> tag(Adv(s, 1), "struct")
       [] C(s) = "V" -> tag(Adv(s, 1), "class")
       [] OTHER -> Then(Eat(s, "W4", "enum"), LAMBDA a : tag(a, "enum"))]

\* For what follows a pointer introducer: "member", "plain" or "none".
PointerKind(s) ==
  IF C(s) \in {"$", "A"} THEN "plain"
  ELSE LET a == Adv(s, 1) IN
       IF C(a) \in Digit
       THEN CASE C(a) = "6" -> "plain" [] C(a) = "8" -> "member" [] OTHER -> "none"
       ELSE LET b == ExtQuals(a)
            IN CASE C(b) \in {"A", "B", "C", "D"} -> "plain"
                 [] C(b) \in {"Q", "R", "S", "T"} -> "member"
                 [] OTHER -> "none"

PlainPointer == [s \in Any |->
  Then(PointerCv(s), LAMBDA a :
    LET ptr(x, q, to) == Ret(Node(x, 1), [k |-> "ptr", q |-> q, aff |-> a.v.aff, cls |-> <<>>, to |-> to])
    IN IF C(a) = "6" THEN Then(FnType[Adv(a, 1), FALSE], LAMBDA b : ptr(b, a.v.q, b.v))
       ELSE LET e == ExtQuals(a)
            IN Then(TypeOf[e, "mangle"], LAMBDA b : ptr(b, a.v.q \cup e.v, b.v)))]

MemberPointer == [s \in Any |->
  Then(PointerCv(s), LAMBDA a :
    LET e == ExtQuals(a)
        q == a.v.q \cup e.v
        ptr(x, cls, to) == Ret(Node(x, 1), [k |-> "ptr", q |-> q, aff |-> "*", cls |-> <<cls>>, to |-> to])
    IN IF C(e) = "8"
       THEN Then(TypeName[Adv(e, 1)], LAMBDA b :
              Then(FnType[b, TRUE], LAMBDA c : ptr(c, b.v, c.v)))
       ELSE Then(Quals(e), LAMBDA b :
              IF ~b.v.member THEN Fail(b, "member pointer")
              ELSE Then(TypeName[b], LAMBDA c :
                     Then(TypeOf[c, "drop"], LAMBDA d : ptr(d, c.v, SetQuals(d.v, b.v.q))))))]

Dims == [s \in Any, k \in Any, acc \in Any |->
  IF k = 0 THEN Ret(Node(s, 1), acc)
  ELSE Then(Number(s), LAMBDA a :
         IF a.v.neg THEN Fail(a, "array bound")
         ELSE Then(Node(a, 1), LAMBDA b :
                Dims[b, k - 1, Append(acc, IF a.v.h = <<>> THEN "" ELSE Decimal(a.v.h))]))]

Array == [s \in Any |->
  Then(Number(Adv(s, 1)), LAMBDA a :
    IF a.v.neg \/ a.v.h = <<>> THEN Fail(a, "array rank")
    ELSE Then(Dims[a, IF Capped(a.v.h) > 3000 THEN 3000 ELSE Capped(a.v.h), <<>>], LAMBDA b :
      LET c == IF Starts(b, "$$C") THEN Quals(Adv(b, 3)) ELSE Ret(b, [q |-> {}, member |-> FALSE])
      IN Then(c, LAMBDA x :
           IF x.v.member THEN Fail(x, "array qualifiers")
           ELSE Then(TypeOf[x, "drop"], LAMBDA d :
                  Ret(Node(d, 1), [k |-> "arr", q |-> x.v.q, dims |-> b.v, el |-> d.v])))))]

Custom(s) ==
  Then(TypeIdent(Adv(s, 1)), LAMBDA a :
    Then(Eat(a, "@", "custom type"), LAMBDA b : Ret(Node(b, 1), [k |-> "custom", q |-> {}, id |-> a.v])))

\* mode: where cv-qualifiers are written in front of the type
\*   "drop": nowhere, "mangle": always, "result": after a question mark
TypeOf == [s \in Any, mode \in Any |->
  Then(Enter(s), LAMBDA a :
    LET none == [q |-> {}, member |-> FALSE]
        b == CASE mode = "mangle" -> Quals(a)
               [] mode = "result" -> IF C(a) = "?" THEN Quals(Adv(a, 1)) ELSE Ret(a, none)
               [] OTHER -> Ret(a, none)
    IN Then(b, LAMBDA x :
         LET y == CASE AtEnd(x) -> Fail(x, "type")
                    [] C(x) \in {"T", "U", "V", "W"} -> Tag[x]
                    [] Starts(x, "$$Q") \/ C(x) \in {"A", "P", "Q", "R", "S"} ->
                         (CASE PointerKind(x) = "member" -> MemberPointer[x]
                            [] PointerKind(x) = "plain" -> PlainPointer[x]
                            [] OTHER -> Fail(x, "pointer"))
                    [] C(x) = "Y" -> Array[x]
                    [] Starts(x, "$$A8@@") -> FnType[Adv(x, 6), TRUE]
                    [] Starts(x, "$$A6") -> FnType[Adv(x, 4), FALSE]
                    [] C(x) = "?" -> Custom(x)
                    [] OTHER -> Primitive(x)
         IN Then(y, LAMBDA z : Leave(Ret(z, AddQuals(z.v, x.v.q))))))]

(***************************************************************************)
(* Functions                                                               *)
(***************************************************************************)
\* v: the parameter types; those of more than one character are memorised
Params == [s \in Any, acc \in Any |->
  CASE C(s) = "@" \/ C(s) = "Z" -> Ret(Node(s, 1), acc)
    [] AtEnd(s) -> Fail(s, "parameters")
    [] C(s) \in Digit ->
         LET i == DigitVal[C(s)] + 1
         IN IF i <= Len(s.pm) THEN Params[Adv(s, 1), Append(acc, s.pm[i])]
            ELSE Fail(s, "parameter back-reference")
    [] OTHER ->
         Then(TypeOf[s, "drop"], LAMBDA a :
           Params[IF a.p - s.p > 1 /\ Len(a.pm) < 10 THEN [a EXCEPT !.pm = Append(@, a.v)] ELSE a,
                  Append(acc, a.v)])]

FnType == [s \in Any, this \in Any |->
  LET e == ExtQuals(s)
      r == CASE C(e) = "G" -> Adv(e, 1) [] C(e) = "H" -> Adv(e, 1) [] OTHER -> e
      ref == CASE C(e) = "G" -> "&" [] C(e) = "H" -> "&&" [] OTHER -> ""
      q == Quals(r)
      h == IF ~this THEN Ret(s, [q |-> {}, ref |-> ""])
           ELSE IF q.ok THEN Ret(q, [q |-> e.v \cup q.v.q, ref |-> ref]) ELSE q
  IN Then(h, LAMBDA x : Then(CallConv(x), LAMBDA c :
       LET ret == IF C(c) = "@" THEN Ret(Adv(c, 1), <<>>)
                  ELSE Then(TypeOf[c, "result"], LAMBDA t : Ret(t, <<t.v>>))
       IN Then(ret, LAMBDA t :
            LET ps == IF C(t) = "X" THEN Ret(Adv(t, 1), [p |-> <<>>, va |-> FALSE])
                      ELSE Then(Params[t, <<>>], LAMBDA a :
                             Ret(Adv(a, 1), [p |-> <<a.v>>, va |-> C(a) = "Z"]))
            IN Then(ps, LAMBDA a :
                 LET ne == Starts(a, "_E")
                     z == IF ne THEN Adv(a, 2) ELSE Eat(a, "Z", "throw specification")
                 IN Then(z, LAMBDA b :
                      Ret(Node(b, 1), [k |-> "fn", q |-> x.v.q, cc |-> c.v, ref |-> x.v.ref,
                                       ret |-> t.v, params |-> a.v.p, va |-> a.v.va,
                                       ne |-> ne, cl |-> NoClass]))))))]

NoSignature == [k |-> "fn", q |-> {}, cc |-> "", ref |-> "", ret |-> <<>>, params |-> <<>>,
                va |-> FALSE, ne |-> FALSE, cl |-> NoClass]

\* the adjustments of a thunk, as printed
Adjustment(s, adj) ==
  CASE adj = "" -> Ret(s, "")
    [] adj = "static" -> Then(Signed(s), LAMBDA a : Ret(a, "`adjustor{" \o Decimal(AsU32(a.v.neg, a.v.h)) \o "}'"))
    [] adj = "vtordisp" ->
         Then(Signed(s), LAMBDA a : Then(Signed(a), LAMBDA b :
           Ret(b, "`vtordisp{" \o AsI32Str(a.v.neg, a.v.h) \o ", "
                  \o Decimal(AsU32(b.v.neg, b.v.h)) \o "}'")))
    [] adj = "vtordispex" ->
         Then(Signed(s), LAMBDA a : Then(Signed(a), LAMBDA b :
           Then(Signed(b), LAMBDA c : Then(Signed(c), LAMBDA d :
             Ret(d, "`vtordispex{" \o AsI32Str(a.v.neg, a.v.h) \o ", " \o AsI32Str(b.v.neg, b.v.h)
                    \o ", " \o AsI32Str(c.v.neg, c.v.h) \o ", " \o Decimal(AsU32(d.v.neg, d.v.h)) \o "}'")))))

\* v: a function symbol that still lacks its name
FunctionEncoding(s) ==
  LET j == Skip(s, "$$J0")
  IN Then(FunctionClass(j), LAMBDA a :
       LET cl == IF j.p > s.p THEN [a.v.cl EXCEPT !.externc = TRUE] ELSE a.v.cl
       IN Then(Adjustment(a, cl.adj), LAMBDA b :
            LET f == IF cl.noparams THEN Ret(Node(b, 1), NoSignature) ELSE FnType[b, a.v.member]
            IN Then(f, LAMBDA c :
                 Ret(Node(c, IF cl.adj = "" THEN 1 ELSE 2),
                     [k |-> "fsym", sig |-> [c.v EXCEPT !.cl = cl], thunk |-> cl.adj # "",
                      adjust |-> b.v, qn |-> <<>>]))))

(***************************************************************************)
(* Variables.  A pointer is followed by its own extended qualifiers and    *)
(* the qualifiers of what it points to (a member pointer by its class once *)
(* more), anything else by its own qualifiers.                             *)
(***************************************************************************)
VariableEncoding(s, qn) ==
  LET sc == C(s)
      var(x, t) == Ret(Node(x, 1), [k |-> "var", sc |-> sc, ty |-> <<t>>, qn |-> qn])
  IN Then(TypeOf[Adv(s, 1), "drop"], LAMBDA a :
       IF a.v.k = "ptr"
       THEN LET e == ExtQuals(a)
            IN Then(Quals(e), LAMBDA b :
                 LET t == [a.v EXCEPT !.q = @ \cup e.v, !.to = AddQuals(@, b.v.q)]
                     c == IF a.v.cls # <<>> THEN TypeName[b] ELSE b
                 IN Then(c, LAMBDA x : var(x, t)))
       ELSE Then(Quals(a), LAMBDA b : var(b, SetQuals(a.v, b.v.q))))

(***************************************************************************)
(* Symbols                                                                 *)
(***************************************************************************)
\* A conversion operator is named after the return type of its function.
WithName(s, sym, qn) ==
  LET l == qn[Len(qn)]
  IN IF l.k # "conv" THEN Ret(s, [sym EXCEPT !.qn = qn])
     ELSE IF sym.k # "fsym" \/ sym.sig.ret = <<>> THEN Fail(s, "conversion operator without type")
     ELSE Ret(s, [sym EXCEPT !.qn = [qn EXCEPT ![Len(qn)].ty = sym.sig.ret]])

Declarator == [s \in Any |->
  Then(SymbolName[s], LAMBDA a :
    IF AtEnd(a) THEN Fail(a, "symbol without encoding")
    ELSE LET e == IF C(a) \in {"0", "1", "2", "3", "4"} THEN VariableEncoding(a, a.v)
                  ELSE FunctionEncoding(a)
         IN Then(e, LAMBDA b : WithName(b, b.v, a.v)))]

Named(text) == NameId(AsciiText(text), AsciiText(text))

SpecialTable == [s \in Any, name \in Any |->
  Then(ScopeChain[Node(s, 1), <<Named(name)>>], LAMBDA a :
    IF C(a) \notin {"6", "7"} THEN Fail(a, "special table")
    ELSE Then(Quals(Adv(a, 1)), LAMBDA b :
      LET t == IF C(b) = "@" THEN Ret(Adv(b, 1), <<>>)
               ELSE Then(TypeName[b], LAMBDA c : Ret(c, <<c.v>>))
      IN Then(t, LAMBDA c :
           Ret(Node(c, 1), [k |-> "table", q |-> b.v.q, qn |-> a.v, target |-> c.v]))))]

UntypedVariable(s, name) ==
  Then(ScopeChain[Node(s, 1), <<Named(name)>>], LAMBDA a :
    Then(Eat(a, "8", "untyped variable"), LAMBDA b :
      Ret(Node(b, 1), [k |-> "var", sc |-> "", ty |-> <<>>, qn |-> a.v])))

TypeDescriptor(s) ==
  Then(TypeOf[s, "result"], LAMBDA a :
    Then(Eat(a, "@8", "type descriptor"), LAMBDA b :
      IF ~AtEnd(b) THEN Fail(b, "text after type descriptor")
      ELSE Ret(Node(b, 4), [k |-> "var", sc |-> "", ty |-> <<a.v>>,
                            qn |-> <<Named("`RTTI Type Descriptor'")>>])))

BaseClassDescriptor(s) ==
  Then(Unsigned(s), LAMBDA a : Then(Signed(a), LAMBDA b :
  Then(Unsigned(b), LAMBDA c : Then(Unsigned(c), LAMBDA d :
    IF ~(FitsU32(a.v.h) /\ FitsI32(b.v.neg, b.v.h) /\ FitsU32(c.v.h) /\ FitsU32(d.v.h))
    THEN Fail(d, "base class descriptor")
    ELSE Then(ScopeChain[Node(d, 1),
                <<[k |-> "bcd", s |-> Decimal(a.v.h) \o ", " \o SignedDecimal(b.v.neg, b.v.h)
                                      \o ", " \o Decimal(c.v.h) \o ", " \o Decimal(d.v.h)]>>],
           LAMBDA e : Then(Eat(e, "8", "base class descriptor"), LAMBDA x :
             Ret(Node(x, 1), [k |-> "var", sc |-> "", ty |-> <<>>, qn |-> e.v])))))))

Guard(s, thread) ==
  Then(ScopeChain[Node(s, 1), <<[k |-> "guard", thread |-> thread, s |-> ""]>>], LAMBDA a :
    LET b == IF Starts(a, "4IA") THEN Adv(a, 3) ELSE Eat(a, "5", "guard")
        c == IF ~b.ok \/ AtEnd(b) THEN Ret(b, "")
             ELSE Then(Unsigned(b), LAMBDA x :
                    IF ~FitsU32(x.v.h) THEN Fail(x, "guard number")
                    ELSE Ret(x, IF x.v.h = <<>> THEN "" ELSE Decimal(x.v.h)))
    IN Then(c, LAMBDA x :
         Ret(Node(x, 1), [k |-> "guardvar", qn |-> [a.v EXCEPT ![Len(a.v)].s = x.v]])))

VcallThunk(s) ==
  Then(ScopeChain[Node(s, 1), <<[k |-> "vcall", s |-> ""]>>], LAMBDA a :
    Then(Eat(a, "$B", "vcall"), LAMBDA b : Then(Unsigned(b), LAMBDA c :
      Then(Eat(c, "A", "vcall"), LAMBDA d : Then(CallConv(d), LAMBDA e :
        Ret(Node(e, 2), [k |-> "fsym",
                         sig |-> [NoSignature EXCEPT !.cc = e.v, !.cl.noparams = TRUE],
                         thunk |-> TRUE, adjust |-> "",
                         qn |-> [a.v EXCEPT ![Len(a.v)].s = Decimal(c.v.h)]]))))))

\* <dynamic initializer or atexit destructor> ::= [?] <declarator> [@ [@] <function encoding>]
InitFini(s, dtor) ==
  LET member == C(s) = "?"
      dyn(sym, qn) == <<[k |-> "dyn", dtor |-> dtor, sym |-> sym, qn |-> qn]>>
  IN Then(Declarator[IF member THEN Adv(s, 1) ELSE s], LAMBDA a :
       IF a.v.k = "var"
       THEN Then(Eat(a, IF member THEN "@@" ELSE "@", "dynamic initializer"), LAMBDA b :
              Then(FunctionEncoding(b), LAMBDA c :
                Ret(Node(c, 3), [c.v EXCEPT !.qn = dyn(<<a.v>>, <<>>)])))
       ELSE IF member THEN Fail(a, "dynamic initializer")
       ELSE Ret(Node(a, 3), [a.v EXCEPT !.qn = dyn(<<>>, a.v.qn)]))

Md5(s) ==
  LET e == NextAt(Adv(s, 3))
  IN IF e = 0 THEN Fail(s, "md5 name")
     ELSE LET a == Skip([s EXCEPT !.p = e + 1], "??_R4@")
          IN Ret(Node(a, 4), [k |-> "md5", t |-> Slice(s, s.p, a.p - 1)])

TypeInfo(s) ==
  Then(TypeOf[Adv(s, 1), "result"], LAMBDA a :
    IF ~AtEnd(a) THEN Fail(a, "text after type-info name")
    ELSE Ret(Node(a, 1), [k |-> "typeinfo", ty |-> a.v]))

(***************************************************************************)
(* String literals                                                         *)
(***************************************************************************)
EscapeDigit == <<44, 47, 92, 58, 46, 32, 10, 9, 39, 45>>

\* v: the byte of one encoded character
CharLiteral(s) ==
  IF AtEnd(s) THEN Fail(s, "character")
  ELSE IF C(s) # "?"
       THEN IF C(s) \in Latin1 THEN Ret(Adv(s, 1), CodeOf(C(s))) ELSE Fail(s, "character")
  ELSE LET a == Adv(s, 1) IN
       CASE C(a) = "$" ->
              (IF C(Adv(a, 1)) \in Nibble /\ C(Adv(a, 2)) \in Nibble
               THEN Ret(Adv(a, 3), 16 * NibbleVal[C(Adv(a, 1))] + NibbleVal[C(Adv(a, 2))])
               ELSE Fail(a, "character"))
         [] C(a) \in Digit -> Ret(Adv(a, 1), EscapeDigit[DigitVal[C(a)] + 1])
         [] C(a) \in Lower -> Ret(Adv(a, 1), 225 + CodeOf(C(a)) - 97)
         [] C(a) \in Upper -> Ret(Adv(a, 1), 193 + CodeOf(C(a)) - 65)
         [] OTHER -> Fail(a, "character")

Printable(v) == CHOOSE c \in Ascii : CodeOf(c) = v

\* one character, given by its bytes, most significant first
Escaped(bytes) ==
  LET sig == Strip(bytes)
      v == IF Len(sig) = 1 THEN sig[1] ELSE IF sig = <<>> THEN 0 ELSE 256
      hex(b) == HexStr[(b \div 16) + 1] \o HexStr[(b % 16) + 1]
      body == Join([i \in 1..Len(sig) |-> hex(sig[i])])
      \* no leading zero once there are more than two digits
      digits == IF Len(sig) > 1 /\ sig[1] < 16 THEN SubSeq(body, 2, Len(body)) ELSE body
  IN CASE v = 0 -> "\\0" [] v = 39 -> "\\'" [] v = 34 -> "\\\"" [] v = 92 -> "\\\\"
       [] v = 7 -> "\\a" [] v = 8 -> "\\b" [] v = 12 -> "\\f" [] v = 10 -> "\\n"
       [] v = 13 -> "\\r" [] v = 9 -> "\\t" [] v = 11 -> "\\v"
       [] v >= 32 /\ v <= 126 -> Printable(v)
       [] OTHER -> "\\x" \o digits

RECURSIVE NarrowBytes, WideChars
NarrowBytes == [s \in Any, acc \in Any |->
  IF C(s) = "@" THEN Ret(Adv(s, 1), acc)
  ELSE Then(CharLiteral(s), LAMBDA a :
         IF Len(acc) >= 128 THEN Fail(a, "literal too long") ELSE NarrowBytes[a, Append(acc, a.v)])]

\* the last character of a complete literal is its terminator
WideChars == [s \in Any, left \in Any, trunc \in Any, acc \in Any |->
  IF C(s) = "@" THEN Ret(Adv(s, 1), acc)
  ELSE Then(CharLiteral(s), LAMBDA a : Then(CharLiteral(a), LAMBDA b :
         WideChars[b, IF left < 2 THEN 0 ELSE left - 2, trunc,
                   IF left # 2 \/ trunc THEN Append(acc, Escaped(<<a.v, b.v>>)) ELSE acc]))]

CountZero(bs) == Cardinality({i \in 1..Len(bs) : bs[i] = 0})
TrailingZero(bs) == Cardinality({i \in 1..Len(bs) : \A j \in i..Len(bs) : bs[j] = 0})

\* Guess the width of the characters of a literal of len bytes, of which bs are encoded.
CharBytes(bs, len) ==
  IF len % 2 = 1 THEN 1
  ELSE IF len < 32
       THEN LET z == TrailingZero(bs) IN IF z >= 4 /\ len % 4 = 0 THEN 4 ELSE IF z >= 2 THEN 2 ELSE 1
       ELSE LET z == CountZero(bs)
            IN IF z >= (2 * Len(bs)) \div 3 /\ len % 4 = 0 THEN 4
               ELSE IF z >= Len(bs) \div 3 THEN 2 ELSE 1

StringLiteral(s) ==
  Then(Eat(s, "@_", "string literal"), LAMBDA a :
    IF C(a) \notin {"0", "1"} THEN Fail(a, "string literal")
    ELSE Then(Number(Adv(a, 1)), LAMBDA b :
      LET wide == C(a) = "1"
          len == Capped(b.v.h)
          e == NextAt(b)                         \* a checksum, not interpreted
          lit(x, prefix, chunks, trunc) ==
            Ret(Node(x, 1), [k |-> "str", prefix |-> prefix, trunc |-> trunc,
                             t |-> AsciiText(Join(chunks))])
      IN IF b.v.neg \/ len < (IF wide THEN 2 ELSE 1) \/ e = 0 \/ e = s.n THEN Fail(b, "string literal")
         ELSE LET c == [b EXCEPT !.p = e + 1] IN
              IF wide
              THEN Then(WideChars[c, len, len > 64, <<>>], LAMBDA d : lit(d, "L", d.v, len > 64))
              ELSE Then(NarrowBytes[c, <<>>], LAMBDA d :
                     LET bs == d.v
                         trunc == len > Len(bs)
                         w == CharBytes(bs, len)
                         count == Len(bs) \div w
                         shown == IF trunc THEN count ELSE IF count = 0 THEN 0 ELSE count - 1
                         char(i) == [j \in 1..w |-> bs[(i - 1) * w + w - j + 1]]
                     IN lit(d, CASE w = 1 -> "" [] w = 2 -> "u" [] OTHER -> "U",
                            [i \in 1..shown |-> Escaped(char(i))], trunc))))

(***************************************************************************)
(* The start symbol                                                        *)
(***************************************************************************)
ParseSymbol == [s0 \in Any |->
  Then(Enter(s0), LAMBDA s :
    Leave(
      CASE C(s) = "." -> TypeInfo(s)
        [] Starts(s, "??@") -> Md5(s)
        [] C(s) # "?" -> Fail(s, "not a mangled name")
        [] Starts(s, "??_7") -> SpecialTable[Adv(s, 4), "`vftable'"]
        [] Starts(s, "??_8") -> SpecialTable[Adv(s, 4), "`vbtable'"]
        [] Starts(s, "??_9") -> VcallThunk(Adv(s, 4))
        [] Starts(s, "??_A") \/ Starts(s, "??_P") -> Fail(s, "unsupported")
        [] Starts(s, "??_B") -> Guard(Adv(s, 4), FALSE)
        [] Starts(s, "??_C") -> StringLiteral(Adv(s, 4))
        [] Starts(s, "??_R0") -> TypeDescriptor(Adv(s, 5))
        [] Starts(s, "??_R1") -> BaseClassDescriptor(Adv(s, 5))
        [] Starts(s, "??_R2") -> UntypedVariable(Adv(s, 5), "`RTTI Base Class Array'")
        [] Starts(s, "??_R3") -> UntypedVariable(Adv(s, 5), "`RTTI Class Hierarchy Descriptor'")
        [] Starts(s, "??_R4") -> SpecialTable[Adv(s, 5), "`RTTI Complete Object Locator'"]
        [] Starts(s, "??_S") -> SpecialTable[Adv(s, 4), "`local vftable'"]
        [] Starts(s, "??__E") -> InitFini(Adv(s, 5), FALSE)
        [] Starts(s, "??__F") -> InitFini(Adv(s, 5), TRUE)
        [] Starts(s, "??__J") -> Guard(Adv(s, 5), TRUE)
        [] OTHER -> Declarator[Adv(s, 1)]))]

(***************************************************************************)
(* The public interface.  verdict: "ok" with the text (as chunks), "err",  *)
(* and free: both an error and this outcome are allowed, because the name  *)
(* lies in the zone that the resource limits leave open.                   *)
(***************************************************************************)
\* Why a name is refused, as far as the interface tells: a resource limit, a reference to a name
\* that was never memorised, or anything else that makes the name malformed.
Reason(why) == CASE why \in {"nodes", "nesting", "output", "rendered"} -> "limit"
                 [] why = "back-reference" -> "reference"
                 [] OTHER -> "malformed"

\* w: the reasons an error may give; in the zone a limit may be hit before anything else is noticed.
Demangle(str, k) ==
  LET f == Flags(k)
      s == ParseSymbol[Start(str, f)]
      o == IF s.ok THEN Render(s.v, f) ELSE Empty
      zone == s.nn >= NodesLo \/ s.mg > NestLo \/ s.rn >= TextLo
      may == IF zone THEN <<"limit">> ELSE <<>>
  IN IF ~s.ok THEN [ok |-> FALSE, free |-> FALSE, why |-> s.why, c |-> <<>>, w |-> <<Reason(s.why)>> \o may]
     ELSE IF o.bad THEN [ok |-> FALSE, free |-> FALSE, why |-> "output", c |-> <<>>, w |-> <<"limit">>]
     ELSE [ok |-> TRUE, free |-> zone, why |-> "", c |-> Chunks(o), w |-> may]
=============================================================================
