------------------------------ MODULE MsMangle ------------------------------
(***************************************************************************)
(* The encoder: what the producers of mangled names write.                 *)
(*                                                                         *)
(* An item is a piece of C++ together with its meaning, the tree that the  *)
(* decoder has to arrive at, and its encoding.  The encoding is a sequence *)
(* of tokens in which names, template instantiations and parameter lists   *)
(* are kept apart from literal text, so that it can be written out with    *)
(* back-references (as compilers do), fully spelled out, or with only some *)
(* of the possible references taken: all of them denote the same thing.    *)
(***************************************************************************)
EXTENDS MsParse

Lit(t) == <<[k |-> "s", t |-> t]>>
IdTok(t) == <<[k |-> "id", t |-> t]>>
MemTok(key) == <<[k |-> "mem", t |-> key]>>

(***************************************************************************)
(* Writing tokens.  e: out the text, nm and pm the tables of the current   *)
(* template context, take how references are used ("never", "always",      *)
(* "odd": every other time, "even": the other times), n the number of      *)
(* opportunities so far.                                                   *)
(***************************************************************************)
NewWriter(take) == [out |-> "", nm |-> <<>>, pm |-> <<>>, take |-> take, n |-> 0, refs |-> 0]
TakeIt(e) == CASE e.take = "always" -> TRUE [] e.take = "never" -> FALSE
               [] e.take = "odd" -> e.n % 2 = 0 [] e.take = "even" -> e.n % 2 = 1
IndexOf(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x
                   THEN CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i - 1) : seq[j] # x
                   ELSE 0
TextF == [e \in Any, t \in Any |-> [e EXCEPT !.out = @ \o t]]
Text(e, t) == TextF[e, t]
LearnF == [e \in Any, key \in Any |-> IF Len(e.nm) >= 10 \/ IndexOf(e.nm, key) # 0 THEN e ELSE [e EXCEPT !.nm = Append(@, key)]]
Learn(e, key) == LearnF[e, key]
ReferenceF == [e \in Any, i \in Any |-> [e EXCEPT !.out = @ \o DigitStr[i], !.n = @ + 1, !.refs = @ + 1]]
Reference(e, i) == ReferenceF[e, i]

RECURSIVE WriteAll, WriteParams
Spelled(tok) == WriteAll[NewWriter("never"), tok, 1].out

WriteOne(e, x) ==
  CASE x.k = "s" -> Text(e, x.t)
    [] x.k = "mem" -> Learn(e, x.t)
    [] x.k = "id" ->
         LET i == IndexOf(e.nm, x.t)
         IN IF i # 0 /\ TakeIt(e) THEN Reference(e, i)
            ELSE LET a == IF i # 0 THEN [e EXCEPT !.n = @ + 1] ELSE e
                 IN Learn(Text(a, x.t \o "@"), x.t)
    [] x.k = "anon" ->
         LET key == "?A" \o x.t
             i == IndexOf(e.nm, key)
         IN IF i # 0 /\ TakeIt(e) THEN Reference(e, i) ELSE Learn(Text(e, key \o "@"), key)
    [] x.k = "tpl" ->
         LET i == IF x.t = "" THEN 0 ELSE IndexOf(e.nm, x.t)
         IN IF i # 0 /\ TakeIt(e) THEN Reference(e, i)
            ELSE LET a == WriteAll[[Text(e, "?$") EXCEPT !.nm = <<>>, !.pm = <<>>], x.body, 1]
                     b == [a EXCEPT !.nm = e.nm, !.pm = e.pm]
                 IN IF x.t = "" THEN b ELSE Learn(b, x.t)
    [] x.k = "ps" -> WriteParams[e, x.ps, 1]

WriteAll == [e \in Any, tok \in Any, i \in Any |->
  IF i > Len(tok) THEN e ELSE WriteAll[WriteOne(e, tok[i]), tok, i + 1]]

\* a parameter is remembered, by what it is, when it takes more than one character
WriteParams == [e \in Any, ps \in Any, i \in Any |->
  IF i > Len(ps) THEN e
  ELSE LET same == Spelled(ps[i])
           j == IndexOf(e.pm, same)
       IN IF j # 0 /\ TakeIt(e) THEN WriteParams[Reference(e, j), ps, i + 1]
          ELSE LET a == WriteAll[IF j # 0 THEN [e EXCEPT !.n = @ + 1] ELSE e, ps[i], 1]
                   b == IF Len(same) > 1 /\ Len(a.pm) < 10 THEN [a EXCEPT !.pm = Append(@, same)] ELSE a
               IN WriteParams[b, ps, i + 1]]

MangleF == [tok \in Any, take \in Any |-> WriteAll[NewWriter(take), tok, 1]]
Mangle(tok, take) == MangleF[tok, take]

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
NibbleStr == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P">>
RECURSIVE HexDigits(_)
HexDigits(n) == IF n = 0 THEN <<>> ELSE Append(HexDigits(n \div 16), n % 16)
LetterNum(h) == Join([i \in 1..Len(h) |-> NibbleStr[h[i] + 1]]) \o "@"
\* the shortest encoding of a natural number
NumTextF == [n \in Any |-> IF n >= 1 /\ n <= 10 THEN DigitStr[n] ELSE IF n = 0 THEN "A@" ELSE LetterNum(HexDigits(n))]
NumText(n) == NumTextF[n]
IntTextF == [n \in Any |-> IF n < 0 THEN "?" \o NumText(-n) ELSE NumText(n)]
IntText(n) == IntTextF[n]
NatStr(n) == ToString(n)

(***************************************************************************)
(* Names.  A piece is one component; a name is a sequence of pieces,       *)
(* innermost first in the text and last in the tree.                       *)
(***************************************************************************)
Plain(t) == LET x == [s |-> t, b |-> WidthOf(t)] IN NameId(x, x)
RenderedIdentF == [id \in Any |-> Join(Chunks(Ident[Empty, NoFlags, id]))]
RenderedIdent(id) == RenderedIdentF[id]

Simple(t) == [tok |-> IdTok(t), sem |-> Plain(t)]
Anon(key) == [tok |-> <<[k |-> "anon", t |-> key]>>, sem |-> AnonymousName]

SemsF == [xs \in Any |-> LET keep == SelectSeq(xs, LAMBDA a : ~a.sep) IN [i \in 1..Len(keep) |-> keep[i].sem]]
Sems(xs) == SemsF[xs]
ToksF == [xs \in Any |-> FoldLeft(LAMBDA acc, x : acc \o x.tok, <<>>, xs)]
Toks(xs) == ToksF[xs]

\* base: a piece naming the template; learn: whether the instantiation is memorised
InstanceF == [base \in Any, args \in Any, learn \in Any |->
  LET sem == [base.sem EXCEPT !.tp = <<Sems(args)>>]
  IN [tok |-> <<[k |-> "tpl", t |-> IF learn THEN RenderedIdent(sem) ELSE "",
                 body |-> base.tok \o Toks(args) \o Lit("@")]>>,
      sem |-> sem]]
Instance(base, args, learn) == InstanceF[base, args, learn]

LocalF == [n \in Any, sym \in Any |->
  LET t == "`" \o Join(Chunks(Symbol[Empty, NoFlags, sym.sem])) \o "'::`" \o NatStr(n) \o "'"
  IN [tok |-> Lit("?" \o (IF n = 0 THEN "@" ELSE NumText(n)) \o "?") \o sym.tok, sem |-> Plain(t)]]
Local(n, sym) == LocalF[n, sym]

\* operators and other special function names
OpPiece(code, spelling) == [tok |-> Lit("?" \o code), sem |-> [k |-> "op", s |-> spelling, tp |-> <<>>]]
StructorPiece(dtor) ==
  [tok |-> Lit(IF dtor THEN "?1" ELSE "?0"),
   sem |-> [k |-> "structor", dtor |-> dtor, cls |-> <<>>, tp |-> <<>>]]
ConvPiece == [tok |-> Lit("?B"), sem |-> [k |-> "conv", ty |-> <<>>, tp |-> <<>>]]
LiteralPieceF == [t \in Any |-> [tok |-> Lit("?__K" \o t \o "@"),
                    sem |-> [k |-> "lit", t |-> [s |-> t, b |-> WidthOf(t)], tp |-> <<>>]]]
LiteralPiece(t) == LiteralPieceF[t]

NameF == [piece \in Any |-> [sort |-> "name", tok |-> piece.tok, sem |-> <<piece.sem>>]]
Name(piece) == NameF[piece]
\* the name, now inside one more scope
WithinF == [name \in Any, piece \in Any |-> [name EXCEPT !.tok = @ \o piece.tok, !.sem = <<piece.sem>> \o @]]
Within(name, piece) == WithinF[name, piece]
NameTokF == [name \in Any |-> name.tok \o Lit("@")]
NameTok(name) == NameTokF[name]
\* the name of a declared entity; there the instantiation of a template is not memorised
DeclTokF == [name \in Any |-> [i \in 1..Len(name.tok) |->
                   IF i = 1 /\ name.tok[1].k = "tpl" THEN [name.tok[1] EXCEPT !.t = ""] ELSE name.tok[i]]
                 \o Lit("@")]
DeclTok(name) == DeclTokF[name]
\* constructors and destructors are named after their class
ResolvedF == [sem \in Any |->
  LET n == Len(sem)
  IN IF sem[n].k = "structor" THEN [sem EXCEPT ![n].cls = <<sem[n - 1]>>] ELSE sem]
Resolved(sem) == ResolvedF[sem]

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
\* again: what a variable of this type repeats behind its qualifiers
TypeItem(tok, sem) == [sort |-> "type", this |-> FALSE, again |-> <<>>, tok |-> tok, sem |-> sem]
IsFn(t) == t.sem.k = "fn"
\* a function type with or without an implicit this
HasThis(t) == IsFn(t) /\ t.this

Prim(code, name) == TypeItem(Lit(code), [k |-> "prim", q |-> {}, name |-> name])
TagTypeF == [kind \in Any, name \in Any |->
  TypeItem(Lit(CASE kind = "union" -> "T" [] kind = "struct" -> "U" [] kind = "class" -> "V" [] OTHER -> "W4")
             \o NameTok(name),
           [k |-> "tag", q |-> {}, tag |-> kind, qn |-> name.sem])]
TagType(kind, name) == TagTypeF[kind, name]
CustomTypeF == [piece \in Any |-> TypeItem(Lit("?") \o piece.tok \o Lit("@"), [k |-> "custom", q |-> {}, id |-> piece.sem])]
CustomType(piece) == CustomTypeF[piece]

LetterQ(l) == CASE l = "Q" -> {"const"} [] l = "R" -> {"volatile"} [] l = "S" -> {"const", "volatile"}
                [] OTHER -> {}
LetterAff(l) == CASE l = "A" -> "&" [] l = "$$Q" -> "&&" [] OTHER -> "*"
ExtSet(ext) == LET cs == CharsOf(ext) IN
  (IF IndexOf(cs, "I") # 0 THEN {"restrict"} ELSE {}) \cup (IF IndexOf(cs, "F") # 0 THEN {"unaligned"} ELSE {})

PointerF == [l \in Any, ext \in Any, cv \in Any, t \in Any |->
  TypeItem(Lit(l \o ext \o cv) \o t.tok,
           [k |-> "ptr", q |-> LetterQ(l) \cup ExtSet(ext), aff |-> LetterAff(l), cls |-> <<>>,
            to |-> AddQuals(t.sem, CvOf(cv))])]
Pointer(l, ext, cv, t) == PointerF[l, ext, cv, t]
FnPointerF == [l \in Any, t \in Any |->
  TypeItem(Lit(l \o "6") \o t.tok,
           [k |-> "ptr", q |-> LetterQ(l), aff |-> LetterAff(l), cls |-> <<>>, to |-> t.sem])]
FnPointer(l, t) == FnPointerF[l, t]
MemberPtrF == [l \in Any, ext \in Any, cv \in Any, class \in Any, t \in Any |->
  [TypeItem(Lit(l \o ext \o cv) \o NameTok(class) \o t.tok,
           [k |-> "ptr", q |-> LetterQ(l) \cup ExtSet(ext), aff |-> "*", cls |-> <<class.sem>>,
            to |-> SetQuals(t.sem, CvOf(cv))]) EXCEPT !.again = NameTok(class)]]
MemberPtr(l, ext, cv, class, t) == MemberPtrF[l, ext, cv, class, t]
MemberFnPtrF == [l \in Any, class \in Any, t \in Any |->
  [TypeItem(Lit(l \o "8") \o NameTok(class) \o t.tok,
           [k |-> "ptr", q |-> LetterQ(l), aff |-> "*", cls |-> <<class.sem>>,
            to |-> t.sem]) EXCEPT !.again = NameTok(class)]]
MemberFnPtr(l, class, t) == MemberFnPtrF[l, class, t]
\* dims: natural numbers; 0 is an unknown bound
ArrayTypeF == [dims \in Any, cv \in Any, t \in Any |->
  TypeItem(Lit("Y" \o NumText(Len(dims)) \o Join([i \in 1..Len(dims) |-> NumText(dims[i])])
               \o (IF cv = "" THEN "" ELSE "$$C" \o cv)) \o t.tok,
           [k |-> "arr", q |-> IF cv = "" THEN {} ELSE CvOf(cv),
            dims |-> [i \in 1..Len(dims) |-> IF dims[i] = 0 THEN "" ELSE NatStr(dims[i])], el |-> t.sem])]
ArrayType(dims, cv, t) == ArrayTypeF[dims, cv, t]

(***************************************************************************)
(* Function types.  this: <<>> or <<[ext, ref, cv]>>; ret: <<>> or <<type>>*)
(* with the qualifiers rq to be written in front ("": none);  params:      *)
(* items, none meaning void; tail: "@", "Z" (variadic); ne: noexcept.      *)
(***************************************************************************)
NoThis == <<>>
This(ext, ref, cv) == <<[ext |-> ext, ref |-> ref, cv |-> cv]>>
Result(rq, t) == [rq |-> rq, t |-> t]

FnTokF == [this \in Any, cc \in Any, ret \in Any, params \in Any, va \in Any, ne \in Any |->
     (IF this = <<>> THEN <<>> ELSE Lit(this[1].ext \o this[1].ref \o this[1].cv))
  \o Lit(cc)
  \o (IF ret = <<>> THEN Lit("@")
      ELSE Lit(IF ret[1].rq = "" THEN "" ELSE "?" \o ret[1].rq) \o ret[1].t.tok)
  \o (IF params = <<>> /\ ~va THEN Lit("X")
      ELSE <<[k |-> "ps", ps |-> [i \in 1..Len(params) |-> params[i].tok]]>> \o Lit(IF va THEN "Z" ELSE "@"))
  \o Lit(IF ne THEN "_E" ELSE "Z")]
FnTok(this, cc, ret, params, va, ne) == FnTokF[this, cc, ret, params, va, ne]
FnSemF == [this \in Any, cc \in Any, ret \in Any, params \in Any, va \in Any, ne \in Any |->
  [k |-> "fn",
   q |-> IF this = <<>> THEN {} ELSE CvOf(this[1].cv) \cup ExtSet(this[1].ext),
   ref |-> IF this = <<>> \/ this[1].ref = "" THEN "" ELSE IF this[1].ref = "G" THEN "&" ELSE "&&",
   cc |-> CcName(cc),
   ret |-> IF ret = <<>> THEN <<>>
           ELSE <<AddQuals(ret[1].t.sem, IF ret[1].rq = "" THEN {} ELSE CvOf(ret[1].rq))>>,
   params |-> IF params = <<>> /\ ~va THEN <<>> ELSE <<[i \in 1..Len(params) |-> params[i].sem]>>,
   va |-> va, ne |-> ne, cl |-> NoClass]]
FnSem(this, cc, ret, params, va, ne) == FnSemF[this, cc, ret, params, va, ne]
FnTypeItemF == [this \in Any, cc \in Any, ret \in Any, params \in Any, va \in Any, ne \in Any |->
  [sort |-> "type", this |-> this # <<>>, again |-> <<>>, tok |-> FnTok(this, cc, ret, params, va, ne),
   sem |-> FnSem(this, cc, ret, params, va, ne)]]
FnTypeItem(this, cc, ret, params, va, ne) == FnTypeItemF[this, cc, ret, params, va, ne]
\* how a function type is written where types are
BareFnF == [t \in Any |-> [t EXCEPT !.tok = Lit(IF t.this THEN "$$A8@@" ELSE "$$A6") \o @]]
BareFn(t) == BareFnF[t]

(***************************************************************************)
(* Template arguments                                                      *)
(***************************************************************************)
Arg(tok, sem) == [sep |-> FALSE, tok |-> tok, sem |-> sem]
Sep(t) == [sep |-> TRUE, tok |-> Lit(t), sem |-> <<>>]
TypeArgF == [t \in Any |-> Arg(IF IsFn(t) THEN BareFn(t).tok ELSE t.tok, t.sem)]
TypeArg(t) == TypeArgF[t]
QualTypeArgF == [cv \in Any, t \in Any |-> Arg(Lit("$$C" \o cv) \o t.tok, AddQuals(t.sem, CvOf(cv)))]
QualTypeArg(cv, t) == QualTypeArgF[cv, t]
DecayArg(t) == Arg(Lit("$$B") \o t.tok, t.sem)
AliasArgF == [name \in Any |-> Arg(Lit("$$Y") \o NameTok(name), [k |-> "alias", qn |-> name.sem])]
AliasArg(name) == AliasArgF[name]
IntArg(n) == Arg(Lit("$0" \o IntText(n)), [k |-> "int", s |-> NatStr(n)])
SymArgF == [code \in Any, sym \in Any, offs \in Any |->
  LET l == SymbolLast(sym.sem)
  IN Arg(Lit("$" \o code) \o sym.tok \o MemTok(RenderedIdent(l[1])) \o Lit(Join([i \in 1..Len(offs) |-> IntText(offs[i])])),
         Ref(<<sym.sem>>, [i \in 1..Len(offs) |-> NatStr(offs[i])], TRUE))]
SymArg(code, sym, offs) == SymArgF[code, sym, offs]
\* an auto argument: the deduced type comes first and isn't printed
AutoSymArg(t, code, sym, offs) ==
  LET a == SymArg(code, sym, offs)
  IN [a EXCEPT !.tok = Lit("$M") \o t.tok \o Lit(code) \o sym.tok \o MemTok(RenderedIdent(SymbolLast(sym.sem)[1]))
                         \o Lit(Join([i \in 1..Len(offs) |-> IntText(offs[i])]))]
NullArgF == [code \in Any, offs \in Any |->
  Arg(Lit("$" \o code \o Join([i \in 1..Len(offs) |-> IntText(offs[i])])),
      Ref(<<>>, [i \in 1..Len(offs) |-> NatStr(offs[i])], code \in {"1", "H", "I", "J"}))]
NullArg(code, offs) == NullArgF[code, offs]
ValueArgF == [sym \in Any |-> Arg(Lit("$E") \o sym.tok, Ref(<<sym.sem>>, <<>>, FALSE))]
ValueArg(sym) == ValueArgF[sym]
AutoIntArgF == [t \in Any, n \in Any |-> Arg(Lit("$M") \o t.tok \o Lit("0" \o IntText(n)), [k |-> "int", s |-> NatStr(n)])]
AutoIntArg(t, n) == AutoIntArgF[t, n]

(***************************************************************************)
(* Symbols                                                                 *)
(***************************************************************************)
SymItem(tok, sem) == [sort |-> "sym", tok |-> tok, sem |-> sem]

\* class: the letter(s) of the function class; adj: the encoded and the printed adjustment
FunctionSymbolF == [name \in Any, class \in Any, cl \in Any, adj \in Any, this \in Any, cc \in Any, ret \in Any, params \in Any, va \in Any, ne \in Any |->
  LET fn == FnSem(this, cc, ret, params, va, ne)
      qn == Resolved(name.sem)
      n == Len(qn)
  IN SymItem(Lit("?") \o DeclTok(name) \o Lit(class \o adj.code) \o FnTok(this, cc, ret, params, va, ne),
             [k |-> "fsym", sig |-> [fn EXCEPT !.cl = cl], thunk |-> cl.adj # "", adjust |-> adj.text,
              qn |-> IF qn[n].k = "conv" THEN [qn EXCEPT ![n].ty = fn.ret] ELSE qn])]
FunctionSymbol(name, class, cl, adj, this, cc, ret, params, va, ne) == FunctionSymbolF[name, class, cl, adj, this, cc, ret, params, va, ne]
NoAdjust == [code |-> "", text |-> ""]

\* variables: sc the storage class, cv the qualifiers written behind the type
VariableF == [name \in Any, sc \in Any, cv \in Any, t \in Any |->
  SymItem(Lit("?") \o DeclTok(name) \o Lit(sc) \o t.tok \o Lit(cv),
          [k |-> "var", sc |-> sc, ty |-> <<SetQuals(t.sem, CvOf(cv))>>, qn |-> name.sem])]
Variable(name, sc, cv, t) == VariableF[name, sc, cv, t]
\* pointers: ext and cv qualify the pointer and what it points to; a member pointer repeats its class
PointerVariableF == [name \in Any, sc \in Any, ext \in Any, cv \in Any, t \in Any, again \in Any |->
  SymItem(Lit("?") \o DeclTok(name) \o Lit(sc) \o t.tok \o Lit(ext \o cv) \o again,
          [k |-> "var", sc |-> sc, qn |-> name.sem,
           ty |-> <<[t.sem EXCEPT !.q = @ \cup ExtSet(ext), !.to = AddQuals(@, CvOf(cv))]>>])]
PointerVariable(name, sc, ext, cv, t, again) == PointerVariableF[name, sc, ext, cv, t, again]
Special(text) == Plain(text)
TableF == [code \in Any, text \in Any, name \in Any, n \in Any, cv \in Any, target \in Any |->
  SymItem(Lit("??" \o code) \o name.tok \o Lit("@" \o n \o cv)
            \o (IF target = <<>> THEN Lit("@") ELSE NameTok(target[1])),
          [k |-> "table", q |-> CvOf(cv), qn |-> Append(name.sem, Special(text)),
           target |-> IF target = <<>> THEN <<>> ELSE <<target[1].sem>>])]
Table(code, text, name, n, cv, target) == TableF[code, text, name, n, cv, target]
Untyped(code, text, name) ==
  SymItem(Lit("??" \o code) \o name.tok \o Lit("@8"),
          [k |-> "var", sc |-> "", ty |-> <<>>, qn |-> Append(name.sem, Special(text))])
Descriptor(rq, t) ==
  SymItem(Lit("??_R0" \o (IF rq = "" THEN "" ELSE "?" \o rq)) \o t.tok \o Lit("@8"),
          [k |-> "var", sc |-> "", ty |-> <<IF rq = "" THEN t.sem ELSE AddQuals(t.sem, CvOf(rq))>>,
           qn |-> <<Special("`RTTI Type Descriptor'")>>])
BaseDescriptor(a, b, c, d, name) ==
  SymItem(Lit("??_R1" \o NumText(a) \o IntText(b) \o NumText(c) \o NumText(d)) \o name.tok \o Lit("@8"),
          [k |-> "var", sc |-> "", ty |-> <<>>,
           qn |-> Append(name.sem, [k |-> "bcd", s |-> NatStr(a) \o ", " \o NatStr(b) \o ", " \o NatStr(c)
                                                      \o ", " \o NatStr(d)])])
TypeInfoName(rq, t) ==
  SymItem(Lit("." \o (IF rq = "" THEN "" ELSE "?" \o rq)) \o t.tok,
          [k |-> "typeinfo", ty |-> IF rq = "" THEN t.sem ELSE AddQuals(t.sem, CvOf(rq))])
GuardSym(thread, visible, n, name) ==
  SymItem(Lit(IF thread THEN "??__J" ELSE "??_B") \o name.tok
            \o Lit("@" \o (IF visible THEN "5" ELSE "4IA") \o (IF n < 0 THEN "" ELSE NumText(n))),
          [k |-> "guardvar",
           qn |-> Append(name.sem, [k |-> "guard", thread |-> thread, s |-> IF n < 1 THEN "" ELSE NatStr(n)])])
VcallSym(n, cc, name) ==
  SymItem(Lit("??_9") \o name.tok \o Lit("@$B" \o NumText(n) \o "A" \o cc),
          [k |-> "fsym", sig |-> [NoSignature EXCEPT !.cc = CcName(cc), !.cl.noparams = TRUE],
           thunk |-> TRUE, adjust |-> "",
           qn |-> Append(name.sem, [k |-> "vcall", s |-> NatStr(n)])])
\* the initializer or destructor of a variable (a static member, or as older compilers wrote it) or of a name
DynOfVariable(dtor, sym, cc, member) ==
  SymItem(Lit("??__" \o (IF dtor THEN "F" ELSE "E"))
            \o (IF member THEN sym.tok \o Lit("@@") ELSE Tail(sym.tok) \o Lit("@")) \o Lit("Y" \o cc \o "XXZ"),
          [k |-> "fsym", thunk |-> FALSE, adjust |-> "",
           sig |-> FnSem(<<>>, cc, <<Result("", Prim("X", "void"))>>, <<>>, FALSE, FALSE),
           qn |-> <<[k |-> "dyn", dtor |-> dtor, sym |-> <<sym.sem>>, qn |-> <<>>]>>])
DynOfName(dtor, name) ==
  SymItem(Lit("??__" \o (IF dtor THEN "F" ELSE "E")) \o DeclTok(name) \o Lit("YAXXZ"),
          [k |-> "fsym", thunk |-> FALSE, adjust |-> "",
           sig |-> FnSem(<<>>, "A", <<Result("", Prim("X", "void"))>>, <<>>, FALSE, FALSE),
           qn |-> <<[k |-> "dyn", dtor |-> dtor, sym |-> <<>>, qn |-> name.sem]>>])
=============================================================================
