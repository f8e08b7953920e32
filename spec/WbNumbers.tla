------------------------------ MODULE WbNumbers ------------------------------
(***************************************************************************)
(* Numbers: the encoded digits grow one at a time; every number is put     *)
(* everywhere a number can occur, and the decimal value (worked out in     *)
(* another way than by the decoder) has to appear there, or the name has   *)
(* to be refused where the number does not fit.                            *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth, Nibbles, FirstNibbles, Starts0
VARIABLES digits, stepNo        \* base-16 digits as written, leading zeros included
rest == <<digits, stepNo>>
vars == <<rest, due>>

Starts1 == digits \in Starts0 /\ stepNo = 0
Grow == stepNo < MaxDepth /\ stepNo' = stepNo + 1 /\ \E x \in Some(IF digits = <<>> THEN FirstNibbles ELSE Nibbles) : digits' = Append(digits, x)

\* starting points: nothing, and the neighbourhoods of 2^31, 2^32, 2^63 and 2^64
Boundaries == { <<>>, <<7,15,15,15,15,15,15>>, <<8,0,0,0,0,0,0>>, <<15,15,15,15,15,15,15>>, <<1,0,0,0,0,0,0,0>>,
                <<7,15,15,15,15,15,15,15,15,15,15,15,15,15,15>>, <<8,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
                <<15,15,15,15,15,15,15,15,15,15,15,15,15,15,15>>, <<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> }
OnlyEmpty == {<<>>}

(***************************************************************************)
(* The decimal text by long division (the decoder multiplies).             *)
(***************************************************************************)
RECURSIVE ByDivision
ByDivision == [x \in Any |->
  IF x = <<>> THEN ""
  ELSE LET step == FoldLeft(LAMBDA a, g : [q |-> Append(a.q, (16 * a.r + g) \div 10), r |-> (16 * a.r + g) % 10],
                            [q |-> <<>>, r |-> 0], x)
       IN ByDivision[Strip(step.q)] \o DigitStr[step.r + 1]]
Dec(x) == LET t == ByDivision[Strip(x)] IN IF t = "" THEN "0" ELSE t

Value == Mod64(digits)                     \* the value counts modulo 2^64
Zero == Value = <<>>
Small == Len(Value) <= 8
U32(x) == Len(x) <= 8
I32(neg, x) == Len(x) < 8 \/ (Len(x) = 8 /\ (x[1] < 8 \/ (neg /\ x = <<8,0,0,0,0,0,0,0>>)))
I64(x) == Len(x) < 16 \/ (Len(x) = 16 /\ x[1] < 8)
\* 2^32 minus a number below 2^32, digit by digit with borrow
Complement32(x) ==
  LET full == [i \in 1..(8 - Len(x)) |-> 0] \o x
      r == FoldRight(LAMBDA g, a : LET v == (IF a.b = 0 THEN 0 ELSE -1) - g
                                   IN [s |-> <<(v + 16) % 16>> \o a.s, b |-> IF v < 0 THEN 1 ELSE 0],
                     full, [s |-> <<>>, b |-> 0])
  IN Strip(r.s)
Wrapped32(neg, x) == LET l == Strip(Low(x, 8)) IN IF neg /\ l # <<>> THEN Complement32(l) ELSE l
\* reduced to 32 bits, read as signed
Signed32(neg, x) ==
  LET u == Wrapped32(neg, x)
  IN IF Len(u) = 8 /\ u[1] >= 8 THEN "-" \o Dec(Complement32(u)) ELSE Dec(u)
Minus(neg, t) == IF neg THEN "-" \o t ELSE t
Plus0(neg, x) == Minus(neg /\ x # <<>>, Dec(x))

(***************************************************************************)
(* Where numbers occur: the mangled name around the number, and what it    *)
(* demangles to (<<>>: it is refused).                                     *)
(***************************************************************************)
Ctx(pre, post, show) == [pre |-> pre, post |-> post, show |-> show]
Ok(t) == <<t>>
Refused == <<>>
OnlyIf(c, t) == IF c THEN Ok(t) ELSE Refused

Contexts(neg) ==
  LET v == Value IN
  << Ctx("?x@@3PAY0", "HA", OnlyIf(~neg, "int (*x)[" \o (IF Zero THEN "" ELSE Dec(v)) \o "]")),
     Ctx("?x@@3PAY14", "HA", OnlyIf(~neg, "int (*x)[5][" \o (IF Zero THEN "" ELSE Dec(v)) \o "]")),
     Ctx("?x@@3V?$t@$0", "@@A", Ok("class t<" \o Minus(neg, Dec(v)) \o "> x")),
     Ctx("?x@@3V?$t@$0", "$00@@A", Ok("class t<" \o Minus(neg, Dec(v)) \o ", 1> x")),
     Ctx("?x@@3V?$t@$MH0", "@@A", Ok("class t<" \o Minus(neg, Dec(v)) \o "> x")),
     Ctx("?x@@3V?$t@$F", "0@@A", OnlyIf(I64(v), "class t<{" \o Plus0(neg, v) \o ", 1}> x")),
     Ctx("?x@@3V?$t@$G0", "1@@A", OnlyIf(I64(v), "class t<{1, " \o Plus0(neg, v) \o ", 2}> x")),
     Ctx("?x@@3V?$t@$H?y@@3HA", "@@A", OnlyIf(I64(v), "class t<{int y, " \o Plus0(neg, v) \o "}> x")),
     Ctx("?x@@3V?$t@$J?y@@3HA01", "@@A", OnlyIf(I64(v), "class t<{int y, 1, 2, " \o Plus0(neg, v) \o "}> x")),
     Ctx("?f@A@@W", "EAAXXZ",
         OnlyIf(I64(v), "[thunk]: public: virtual void __cdecl A::f`adjustor{" \o Dec(Wrapped32(neg, v)) \o "}'(void)")),
     Ctx("?f@A@@$4", "3EAAXXZ",
         OnlyIf(I64(v), "[thunk]: public: virtual void __cdecl A::f`vtordisp{" \o Signed32(neg, v) \o ", 4}'(void)")),
     Ctx("?f@A@@$23", "EAAXXZ",
         OnlyIf(I64(v), "[thunk]: protected: virtual void __cdecl A::f`vtordisp{4, " \o Dec(Wrapped32(neg, v)) \o "}'(void)")),
     Ctx("?f@A@@$R00", "12EAAXXZ",
         OnlyIf(I64(v), "[thunk]: private: virtual void __cdecl A::f`vtordispex{1, " \o Signed32(neg, v) \o ", 2, 3}'(void)")),
     Ctx("?f@A@@$R001", "2EAAXXZ",
         OnlyIf(I64(v), "[thunk]: private: virtual void __cdecl A::f`vtordispex{1, 2, " \o Signed32(neg, v) \o ", 3}'(void)")),
     Ctx("?f@A@@$R0012", "EAAXXZ",
         OnlyIf(I64(v), "[thunk]: private: virtual void __cdecl A::f`vtordispex{1, 2, 3, " \o Dec(Wrapped32(neg, v)) \o "}'(void)")),
     Ctx("??_9A@@$B", "AA", OnlyIf(~neg, "[thunk]: __cdecl A::`vcall'{" \o Dec(v) \o ", {flat}}")),
     Ctx("??_R1", "012A@@8",
         OnlyIf(~neg /\ U32(v), "A::`RTTI Base Class Descriptor at (" \o Dec(v) \o ", 1, 2, 3)'")),
     Ctx("??_R10", "12A@@8",
         OnlyIf(I32(neg, v), "A::`RTTI Base Class Descriptor at (1, " \o Plus0(neg, v) \o ", 2, 3)'")),
     Ctx("??_R101", "2A@@8",
         OnlyIf(~neg /\ U32(v), "A::`RTTI Base Class Descriptor at (1, 2, " \o Dec(v) \o ", 3)'")),
     Ctx("??_R1012", "A@@8",
         OnlyIf(~neg /\ U32(v), "A::`RTTI Base Class Descriptor at (1, 2, 3, " \o Dec(v) \o ")'")),
     Ctx("??_BA@@5", "", OnlyIf(~neg /\ U32(v), "A::`local static guard'" \o (IF Zero THEN "" ELSE "{" \o Dec(v) \o "}"))),
     Ctx("??__JA@@4IA", "",
         OnlyIf(~neg /\ U32(v), "A::`local static thread guard'" \o (IF Zero THEN "" ELSE "{" \o Dec(v) \o "}"))) >>

\* scopes: the encoded number must not start with zero
Scopes(neg) ==
  IF neg \/ (digits # <<>> /\ digits[1] = 0) THEN <<>>
  ELSE << Ctx("?x@?", "??f@@YAXXZ@4HA", Ok("int `void __cdecl f(void)'::`" \o Dec(Value) \o "'::x")) >>

\* n: the number as written
Check(c, n) ==
  LET text == c.pre \o n \o c.post
      r == Shown(text, 0)
  IN /\ Law("number", text, IF c.show = Refused THEN r.r = "E" ELSE r = [r |-> "O", t |-> c.show[1]])
     /\ Vector(<<text>>, FlagsUsed)

Digitless(n) == \A i \in 1..Len(n) : n[i] \notin {0}
LawfulHere ==
  /\ \A neg \in BOOLEAN : \A i \in 1..Len(Contexts(neg)) :
       Check(Contexts(neg)[i], (IF neg THEN "?" ELSE "") \o LetterNum(digits))
  /\ \A i \in 1..Len(Scopes(FALSE)) : Check(Scopes(FALSE)[i], LetterNum(digits))
  \* the short form of 1 to 10
  /\ (Len(digits) = 1 /\ digits[1] \in 1..10) =>
       \A neg \in BOOLEAN : /\ \A i \in 1..Len(Contexts(neg)) :
                                 Check(Contexts(neg)[i], (IF neg THEN "?" ELSE "") \o DigitStr[digits[1]])
                            /\ neg \/ \A i \in 1..Len(Scopes(FALSE)) : Check(Scopes(FALSE)[i], DigitStr[digits[1]])

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
