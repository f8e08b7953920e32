------------------------------ MODULE MsRender ------------------------------
(***************************************************************************)
(* How a decoded symbol is printed.                                        *)
(*                                                                         *)
(* Rendering threads a writer: what has been written so far, as blocks c   *)
(* of chunks and the chunks d of the last block, its number of bytes, the  *)
(* last character written, and whether the output reached the limit of one *)
(* mebibyte (from then on nothing is written any more).                    *)
(***************************************************************************)
EXTENDS MsText

OutputLimit == 1048576

Empty == [c |-> <<>>, d |-> <<>>, n |-> 0, last |-> "", bad |-> FALSE]

Put(o, t, bytes) ==
  IF o.bad \/ bytes = 0 THEN o
  ELSE IF o.n + bytes >= OutputLimit THEN [o EXCEPT !.bad = TRUE]
  ELSE IF Len(o.d) < 64 THEN [o EXCEPT !.d = Append(@, t), !.n = @ + bytes, !.last = LastOf(t)]
  ELSE [c |-> Append(o.c, Join(o.d)), d |-> <<t>>, n |-> o.n + bytes, last |-> LastOf(t), bad |-> FALSE]
Chunks(o) == Append(o.c, Join(o.d))

W(o, t) == Put(o, t, Len(t))                    \* a text of ASCII characters only
WT(o, text) == Put(o, text.s, text.b)           \* a text with its number of bytes

If(c, a, b) == IF c THEN a ELSE b
WIf(c, o, t) == IF c THEN W(o, t) ELSE o

\* a blank, when the output so far ends in a letter, a digit or '>'
\* what an identifier or a template argument list may end in
WordEnd == Alnum \cup {">", "_", "$"} \cup (Alphabet \ Ascii)
SpaceIfNecessary(o) == WIf(o.last \in WordEnd, o, " ")

(***************************************************************************)
(* const, volatile and __restrict, separated by blanks.                    *)
(***************************************************************************)
ShownQuals(f, q) ==
     (IF "const" \in q THEN <<"const">> ELSE <<>>)
  \o (IF "volatile" \in q THEN <<"volatile">> ELSE <<>>)
  \o (IF "restrict" \in q /\ ~f.ms THEN <<IF f.und THEN "restrict" ELSE "__restrict">> ELSE <<>>)

QualsBefore(o, f, q) ==                          \* " const volatile"
  FoldLeft(LAMBDA w, t : W(W(w, " "), t), o, ShownQuals(f, q))
QualsPlain(o, f, q) ==                           \* "const volatile"
  LET s == ShownQuals(f, q)
  IN IF s = <<>> THEN o ELSE FoldLeft(LAMBDA w, t : W(W(w, " "), t), W(o, s[1]), Tail(s))
QualsAfter(o, f, q) ==                           \* "const volatile "
  LET s == ShownQuals(f, q) IN FoldLeft(LAMBDA w, t : W(W(w, t), " "), o, s)

ThisQuals(o, f, q) ==
  LET a == WIf("const" \in q, o, " const")
      b == WIf("volatile" \in q, a, " volatile")
      c == WIf("restrict" \in q /\ ~f.ms, b, IF f.und THEN " restrict" ELSE " __restrict")
  IN WIf("unaligned" \in q /\ ~f.ms, c, IF f.und THEN " unaligned" ELSE " __unaligned")

CallingConvention(o, f, cc) ==
  LET w == SpaceIfNecessary(o)
  IN CASE cc = "swift" -> W(w, "__attribute__((__swiftcall__)) ")
       [] cc = "swiftasync" -> W(w, "__attribute__((__swiftasynccall__)) ")
       [] OTHER -> W(WIf(~f.und, w, "__"), cc)

(***************************************************************************)
(* A declarator is printed in two halves around the declared name.         *)
(***************************************************************************)

RECURSIVE Pre, Post, FnPre, FnPost, QName, Ident, Args, Symbol, List

Type(o, f, t) == Post[Pre[o, f, t], f, t]

NodeOut(o, f, x) ==
  CASE x.k \in {"prim", "ptr", "tag", "arr", "fn", "custom"} -> Type(o, f, x)
    [] x.k = "alias" -> QName[o, f, x.qn]
    [] x.k = "int" -> W(o, x.s)
    [] x.k = "ref" ->
         LET a == IF x.offs # <<>> THEN W(o, "{") ELSE WIf(x.amp, o, "&")
             b == IF x.sym = <<>> THEN a
                  ELSE WIf(x.offs # <<>>, Symbol[a, f, x.sym[1]], ", ")
         IN IF x.offs = <<>> THEN b
            ELSE W(FoldLeft(LAMBDA w, t : W(W(w, ", "), t), W(b, x.offs[1]), Tail(x.offs)), "}")

List == [o \in Any, f \in Any, xs \in Any, i \in Any |->
  IF i > Len(xs) \/ o.bad THEN o
  ELSE List[NodeOut(WIf(i > 1, o, ", "), f, xs[i]), f, xs, i + 1]]

Pre == [o \in Any, f \in Any, t \in Any |->
  IF o.bad THEN o
  ELSE
  CASE t.k = "prim" -> QualsBefore(W(o, t.name), f, t.q)
    [] t.k = "tag"  -> QualsBefore(QName[WIf(~f.tag /\ ~f.name, o, t.tag \o " "), f, t.qn], f, t.q)
    [] t.k = "arr"  -> QualsBefore(Pre[o, f, t.el], f, t.q)
    [] t.k = "custom" -> QualsBefore(Ident[o, f, t.id], f, t.q)
    [] t.k = "fn"   -> FnPre[o, f, t, "type"]
    [] t.k = "ptr"  ->
         LET toFn == t.to.k = "fn"
             a == IF toFn THEN FnPre[o, f, t.to, "pointee"] ELSE Pre[o, f, t.to]
             b == SpaceIfNecessary(a)
             c == WIf("unaligned" \in t.q /\ ~f.ms, b, IF f.und THEN "unaligned " ELSE "__unaligned ")
             d == WIf(toFn \/ t.to.k = "arr", c, "(")
             e == IF toFn /\ ~f.cc /\ ~f.ms /\ t.to.cc # ""
                  THEN W(CallingConvention(d, f, t.to.cc), " ") ELSE d
             g == IF t.cls = <<>> THEN e ELSE W(QName[e, f, t.cls[1]], "::")
         IN QualsPlain(W(g, t.aff), f, t.q)]

Post == [o \in Any, f \in Any, t \in Any |->
  IF o.bad THEN o
  ELSE
  CASE t.k \in {"prim", "tag", "custom"} -> o
    [] t.k = "arr" ->
         LET a == FoldLeft(LAMBDA w, d : W(W(w, "]["), d), W(W(o, "["), t.dims[1]), Tail(t.dims))
         IN Post[W(a, "]"), f, t.el]
    [] t.k = "fn" -> FnPost[o, f, t, "type"]
    [] t.k = "ptr" ->
         LET toFn == t.to.k = "fn"
             a == WIf(toFn \/ t.to.k = "arr", o, ")")
         IN IF toFn THEN FnPost[a, f, t.to, "pointee"] ELSE Post[a, f, t.to]]

(***************************************************************************)
(* Function signatures.  ctx: "decl" for the signature of a function       *)
(* symbol (all that NAME_ONLY removes), "type" for a function type,        *)
(* "pointee" for a function type pointed to: there the pointer prints the  *)
(* calling convention.                                                     *)
(***************************************************************************)
FnPre == [o \in Any, f \in Any, t \in Any, ctx \in Any |->
  LET nameOnly == ctx = "decl" /\ f.name
      a == WIf(~f.acc /\ ~nameOnly /\ t.cl.acc # "", o, t.cl.acc \o ": ")
      m == ~f.mem /\ ~nameOnly
      b == WIf(m /\ t.cl.static, a, "static ")
      c == WIf(m /\ t.cl.virtual, b, "virtual ")
      d == WIf(m /\ t.cl.externc, c, "extern \"C\" ")
      e == IF ~f.ret /\ ~nameOnly /\ t.ret # <<>> THEN W(Pre[d, f, t.ret[1]], " ") ELSE d
  IN IF ctx # "pointee" /\ ~f.cc /\ ~f.ms /\ ~nameOnly /\ t.cc # ""
     THEN CallingConvention(e, f, t.cc) ELSE e]

FnPost == [o \in Any, f \in Any, t \in Any, ctx \in Any |->
  LET nameOnly == ctx = "decl" /\ f.name
      ps == IF t.params = <<>> THEN W(W(o, "("), "void") ELSE List[W(o, "("), f, t.params[1], 1]
      va == IF t.va THEN W(WIf(ps.last # "(", ps, ", "), "...") ELSE ps
      a == IF ~nameOnly /\ ~t.cl.noparams THEN W(va, ")") ELSE o
      b == IF ~f.this /\ ~nameOnly THEN ThisQuals(a, f, t.q) ELSE a
      c == WIf(t.ne /\ ~nameOnly, b, " noexcept")
      d == WIf(~f.this /\ ~nameOnly /\ t.ref # "", c, " " \o t.ref)
  IN IF ~f.ret /\ ~nameOnly /\ t.ret # <<>> THEN Post[d, f, t.ret[1]] ELSE d]

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
QName == [o \in Any, f \in Any, qn \in Any |->
  LET step[i \in 1..Len(qn)] ==
        Ident[IF i = 1 THEN o ELSE W(step[i - 1], "::"), f, qn[i]]
  IN step[Len(qn)]]

\* the template argument list of an identifier, if it has one
Args == [o \in Any, f \in Any, tp \in Any |->
  IF tp = <<>> THEN o ELSE W(List[W(o, "<"), f, tp[1], 1], ">")]

Ident == [o \in Any, f \in Any, x \in Any |->
  IF o.bad THEN o
  ELSE
  CASE x.k = "name" -> Args[WT(o, IF f.any THEN x.t ELSE x.ft), f, x.tp]
    [] x.k = "op" -> Args[W(o, x.s), f, x.tp]
    [] x.k = "structor" ->
         LET a == WIf(x.dtor, o, "~")
         IN Args[IF x.cls = <<>> THEN a ELSE Ident[a, f, x.cls[1]], f, x.tp]
    [] x.k = "conv" ->
         LET a == W(Args[W(o, "operator"), f, x.tp], " ")
         IN IF x.ty = <<>> THEN a ELSE Type(a, f, x.ty[1])
    [] x.k = "lit" -> Args[WT(W(o, "operator \"\""), x.t), f, x.tp]
    [] x.k = "vcall" -> W(o, "`vcall'{" \o x.s \o (IF f.name THEN "}" ELSE ", {flat}}"))
    [] x.k = "dyn" ->
         LET a == W(o, IF x.dtor THEN "`dynamic atexit destructor for " ELSE "`dynamic initializer for ")
         IN IF x.sym # <<>> THEN W(Symbol[W(a, "`"), f, x.sym[1]], "''")
            ELSE W(QName[W(a, "'"), f, x.qn], "''")
    [] x.k = "guard" ->
         LET a == W(o, IF x.thread THEN "`local static thread guard'" ELSE "`local static guard'")
         IN WIf(x.s # "", a, "{" \o x.s \o "}")
    [] x.k = "bcd" -> W(o, "`RTTI Base Class Descriptor at (" \o x.s \o ")'")]

(***************************************************************************)
(* Symbols                                                                 *)
(***************************************************************************)
StorageAccess(sc) == CASE sc = "0" -> "private: " [] sc = "1" -> "protected: "
                       [] sc = "2" -> "public: " [] OTHER -> ""

Symbol == [o \in Any, f \in Any, s \in Any |->
  IF o.bad THEN o
  ELSE
  CASE s.k = "md5" -> WT(o, s.t)
    [] s.k = "guardvar" -> QName[o, f, s.qn]
    [] s.k = "str" -> W(WT(W(o, s.prefix \o "\""), s.t), IF s.trunc THEN "\"..." ELSE "\"")
    [] s.k = "table" ->
         LET a == IF f.name THEN o ELSE QualsAfter(o, f, s.q)
             b == QName[a, f, s.qn]
         IN IF s.target = <<>> THEN b ELSE W(QName[W(b, "{for `"), f, s.target[1]], "'}")
    [] s.k = "typeinfo" ->
         LET a == Type(o, f, s.ty)
         IN IF f.name THEN a ELSE W(SpaceIfNecessary(a), "`RTTI Type Descriptor Name'")
    [] s.k = "var" ->
         LET acc == StorageAccess(s.sc)
             a == WIf(acc # "" /\ ~f.acc /\ ~f.name, o, acc)
             b == WIf(acc # "" /\ ~f.mem /\ ~f.name, a, "static ")
             shown == s.ty # <<>> /\ ~f.var /\ ~f.name
             c == IF shown THEN SpaceIfNecessary(Pre[b, f, s.ty[1]]) ELSE b
             d == QName[c, f, s.qn]
         IN IF shown THEN Post[d, f, s.ty[1]] ELSE d
    [] s.k = "fsym" ->
         LET a == WIf(s.thunk /\ ~f.name, o, "[thunk]: ")
             b == SpaceIfNecessary(FnPre[a, f, s.sig, "decl"])
             c == QName[b, f, s.qn]
         IN FnPost[W(c, s.adjust), f, s.sig, "decl"]]

Render(s, f) == Symbol[Empty, f, s]
=============================================================================
