-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What has to hold of every symbol the workbenches build.  A symbol is a  *)
(* pair of a meaning (sem) and an encoding (tok), see MsMangle.            *)
(***************************************************************************)
EXTENDS MsMangle, IOUtils

CONSTANT Emit           \* print the vectors for the harness?

SingleFlags == <<0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512>>
PairFlags == SingleFlags \o SetToSeq({a + b : a, b \in {SingleFlags[i] : i \in 2..11}}
                                      \ ({SingleFlags[i] : i \in 1..11} \cup {1024}))
AllFlags == [i \in 1..1024 |-> i - 1]

Decode(text, f) == ParseSymbol[Start(text, f)]
Shown(text, k) == LET r == Demangle(text, k)
                  IN [r |-> IF ~r.ok THEN "E" ELSE IF r.free THEN "F" ELSE "O",
                      t |-> IF r.ok THEN Join(r.c) ELSE ""]

\* with the reasons an error may give
Told(text, k) == LET r == Demangle(text, k)
                 IN [r |-> IF ~r.ok THEN "E" ELSE IF r.free THEN "F" ELSE "O",
                     t |-> IF r.ok THEN Join(r.c) ELSE "", w |-> r.w]

Spellings(c) == <<Mangle(c.tok, "never").out, Mangle(c.tok, "always").out, Mangle(c.tok, "odd").out,
                  Mangle(c.tok, "even").out>>

Law(name, text, holds) == holds \/ (PrintT("BROKEN " \o name \o " " \o text) /\ FALSE)

(***************************************************************************)
(* Decoding inverts encoding and consumes exactly the encoding.            *)
(***************************************************************************)
RoundTrips(c, text) ==
  LET s == Decode(text, NoFlags) IN s.ok /\ s.p = s.n + 1 /\ s.v = c.sem

(***************************************************************************)
(* The decoder keeps its tables as documented: at most ten entries, names  *)
(* without repetition.                                                     *)
(***************************************************************************)
TablesInOrder(text) ==
  LET s == Decode(text, NoFlags)
  IN s.ok => /\ Len(s.nm) <= 10 /\ Len(s.pm) <= 10
             /\ \A i, j \in 1..Len(s.nm) : i # j => s.nm[i].key # s.nm[j].key
             /\ s.ng = 0

(***************************************************************************)
(* What the flags remove, in terms of the words and signs of the output.   *)
(***************************************************************************)
WordChar == Alnum \cup {"_"}
Words(text) ==
  LET r == FoldLeft(LAMBDA a, c :
             IF c \in WordChar THEN [a EXCEPT !.w = @ \o c]
             ELSE [s |-> (IF a.w = "" THEN a.s ELSE Append(a.s, a.w)) \o (IF c = " " THEN <<>> ELSE <<c>>), w |-> ""],
             [s |-> <<>>, w |-> ""], CharsOf(text))
  IN IF r.w = "" THEN r.s ELSE Append(r.s, r.w)

RECURSIVE Without
\* the words without any occurrence of one of the given patterns
Without == [ws \in Any, pats \in Any |->
  IF ws = <<>> THEN <<>>
  ELSE LET hit == {p \in pats : Len(p) <= Len(ws) /\ SubSeq(ws, 1, Len(p)) = p}
       IN IF hit # {} THEN Without[SubSeq(ws, Len(CHOOSE p \in hit : TRUE) + 1, Len(ws)), pats]
          ELSE <<ws[1]>> \o Without[Tail(ws), pats]]
CcNames == {"cdecl", "pascal", "thiscall", "stdcall", "fastcall", "clrcall", "eabi", "vectorcall"}
CcPatterns == {<<"__" \o n>> : n \in CcNames} \cup
  {<<"__attribute__", "(", "(", "__" \o n \o "__", ")", ")">> : n \in {"swiftcall", "swiftasynccall"}}
MsPatterns == CcPatterns \cup {<<"__restrict">>, <<"__unaligned">>}
Underscored == {"__" \o n : n \in CcNames} \cup {"__restrict", "__unaligned"}
\* special names contain these words as well
Guarded(ws) == \E i \in 1..Len(ws) : ws[i] \in {"guard", "displacement"}
Removed(ws, k) ==
  CASE k = 1 -> Without[ws, CcPatterns]
    [] k = 2 -> Without[ws, {<<"class">>, <<"struct">>, <<"union">>, <<"enum">>}]
    [] k = 4 -> Without[ws, {<<"public", ":">>, <<"protected", ":">>, <<"private", ":">>}]
    [] k = 8 -> Without[ws, {<<"static">>, <<"virtual">>, <<"extern", "\"", "C", "\"">>}]
    [] k = 128 -> [i \in 1..Len(ws) |-> IF ws[i] \in Underscored THEN SubSeq(ws[i], 3, Len(ws[i])) ELSE ws[i]]
    [] k = 256 -> Without[ws, MsPatterns]

RECURSIVE Dropped
\* the words of a that b lacks; FALSE when b is not a subsequence of a
Dropped == [a \in Any, b \in Any |->
  IF b = <<>> THEN [sub |-> TRUE, w |-> {a[i] : i \in 1..Len(a)}]
  ELSE IF a = <<>> THEN [sub |-> FALSE, w |-> {}]
  ELSE IF a[1] = b[1] THEN Dropped[Tail(a), Tail(b)]
  ELSE LET r == Dropped[Tail(a), b] IN [r EXCEPT !.w = @ \cup {a[1]}]]

Count(text, c) == Cardinality({i \in 1..Len(text) : SubSeq(text, i, i) = c})
HasText(text, t) == \E i \in 1..(Len(text) - Len(t) + 1) : SubSeq(text, i, i + Len(t) - 1) = t
Balanced(text) == /\ Count(text, "(") = Count(text, ")") /\ Count(text, "[") = Count(text, "]")
                  /\ Count(text, "{") = Count(text, "}")
                  /\ HasText(text, "`dynamic ") \/ Count(text, "`") = Count(text, "'")
                  /\ HasText(text, "operator") \/ Count(text, "<") = Count(text, ">")
Tidy(text) == \/ HasText(text, "__swift") \/ HasText(text, "swiftasync")
              \/ /\ \A t \in {"  ", " ,", "( ", " )", "[ ", " ]", "< ", ",,", ",)"} : ~HasText(text, t)
                 /\ text # "" => LastOf(text) # " " /\ SubSeq(text, 1, 1) # " "

\* out: the texts for SingleFlags, in this order
FlagLaws(text) ==
  LET t == [k \in {SingleFlags[i] : i \in 1..11} |-> TLCEval(Shown(text, k).t)]
      w == [k \in {SingleFlags[i] : i \in 1..11} |-> TLCEval(Words(t[k]))]
      erasing == {1, 2, 4, 8, 128, 256}
  IN /\ \A k \in {SingleFlags[i] : i \in 1..11} :
          Law("balanced", text, Balanced(t[k])) /\ Law("tidy", text, Tidy(t[k]))
     /\ \A j \in erasing : ~(j = 8 /\ Guarded(w[0])) =>
          Law("flag " \o ToString(j), text, w[j] = Removed(w[0], j))
     /\ LET r == Dropped[w[0], w[64]]
        IN Law("flag 64", text, r.sub /\ r.w \subseteq {"const", "volatile", "__restrict", "__unaligned", "&"})
     /\ \A k \in {16, 32, 512} : Law("flag " \o ToString(k), text, Dropped[w[0], w[k]].sub)

\* any combination behaves as each of its flags
CombinationLaws(text) ==
  \A k \in {16, 32, 64, 512}, j \in {1, 2, 4, 8, 128, 256} :
    LET a == Words(Shown(text, k).t)
    IN (j = 8 /\ Guarded(a)) \/ Law("flags " \o ToString(k + j), text, Words(Shown(text, k + j).t) = Removed(a, j))

(***************************************************************************)
(* A symbol that is cut short is an error; text behind it changes nothing. *)
(***************************************************************************)
OptionalTail(c) == c.sem.k \in {"guardvar", "typeinfo", "md5"}
Truncations(c, text) ==
  OptionalTail(c) \/ \A i \in 0..(Len(text) - 1) :
    Law("truncation", SubSeq(text, 1, i), ~Demangle(SubSeq(text, 1, i), 0).ok)
Descriptor0(text) == Len(text) >= 5 /\ SubSeq(text, 1, 5) = "??_R0"
Trailing(c, text) ==
  \A more \in {"@", "X", "?a@@3HA", "0"} :
    LET r == Shown(text \o more, 0) IN
    IF OptionalTail(c) THEN TRUE
    ELSE Law("trailing", text \o more,
             IF Descriptor0(text) THEN r.r = "E" ELSE r = Shown(text, 0))

(***************************************************************************)
(* All laws of one symbol, and the vector for the harness: the spellings,  *)
(* the flags and the outcomes they share.                                  *)
(***************************************************************************)
Vector(texts, flags) ==
  Emit => PrintT("VEC " \o ToJson([m |-> texts, f |-> flags,
                                  x |-> [i \in 1..Len(flags) |-> Told(texts[1], flags[i])]]))

Holds(c, flags, deep) ==
  LET texts == TLCEval(Spellings(c))
      plain == texts[1]
      distinct == SetToSeq({texts[i] : i \in 1..Len(texts)})
      some == {flags[i] : i \in 1..Len(flags)} \cap {0, 2, 512}
  IN /\ Law("round trip", plain, RoundTrips(c, plain))
     /\ "references" \in deep =>
          /\ \A i \in 1..Len(distinct) : Law("tables", distinct[i], TablesInOrder(distinct[i]))
          /\ \A i \in 2..4 : texts[i] = plain \/ \A k \in some :
               Law("references", texts[i], Shown(texts[i], k) = Shown(plain, k))
     /\ "flags" \in deep => FlagLaws(plain)
     /\ "combinations" \in deep => CombinationLaws(plain)
     /\ "truncation" \in deep => Truncations(c, texts[2]) /\ Trailing(c, texts[2])
     /\ Vector(distinct, flags)
=============================================================================
