------------------------------ MODULE WbStrings ------------------------------
(***************************************************************************)
(* String literals grow by one character at a time.  Every text is encoded    *)
(* as a literal of every character type, complete or truncated, with every *)
(* way of writing a byte; the text has to come back, escaped.                 *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS MaxDepth,
          Codes,        \* the characters, as code points
          Sizes         \* which numbers of characters are printed as vectors ({}: all)
VARIABLES theText, stepNo
rest == <<theText, stepNo>>
vars == <<rest, due>>

AllCodes == {0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 36, 39, 44, 45, 46, 47, 48, 57, 58, 63, 64, 65, 90, 92,
             95, 97, 122, 126, 127, 128, 160, 192, 193, 218, 219, 225, 233, 250, 251, 255,
             256, 955, 4095, 4096, 12354, 65535, 65536, 128512, 1114111}
FewCodes == {0, 9, 39, 65, 92, 200, 233, 12354, 128512}

Starts1 == theText = <<>> /\ stepNo = 0
Grow == stepNo < MaxDepth /\ stepNo' = stepNo + 1 /\ \E c \in Some(Codes) : theText' = Append(theText, c)

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
CharOfCode == [n \in {CodeOf(c) : c \in Latin1} |-> CHOOSE c \in Latin1 : CodeOf(c) = n]
Nib(n) == NibbleStr[n + 1]
HexByte(b) == "?$" \o Nib(b \div 16) \o Nib(b % 16)
Escapes == <<44, 47, 92, 58, 46, 32, 10, 9, 39, 45>>
Plainly(b) == b \in 0..255 /\ CharOfCode[b] \in Digit \cup Upper \cup Lower \cup {"_", "$"}
\* how: "compiler" (as the compiler does), "hex", "raw" (the character itself wherever that is possible)
Byte(b, how) ==
  CASE how = "hex" -> HexByte(b)
    [] how = "raw" -> IF b \in {63, 64} THEN HexByte(b) ELSE CharOfCode[b]
    [] OTHER -> IF Plainly(b) THEN CharOfCode[b]
                ELSE IF IndexOf(Escapes, b) # 0 THEN "?" \o DigitStr[IndexOf(Escapes, b)]
                ELSE IF b \in 193..218 THEN "?" \o CharOfCode[b - 128]
                ELSE IF b \in 225..250 THEN "?" \o CharOfCode[b - 128]
                ELSE HexByte(b)

\* the bytes of one character, least significant first
BytesOf(c, w) == CASE w = 1 -> <<c % 256>>
                   [] w = 2 -> <<c % 256, (c \div 256) % 256>>
                   [] OTHER -> <<c % 256, (c \div 256) % 256, (c \div 65536) % 256, 0>>
Reverse2(x) == <<x[2], x[1]>>
Unit(c, kind, how) ==
  LET b == CASE kind = "L" -> Reverse2(BytesOf(c, 2)) [] kind = "U" -> BytesOf(c, 4)
             [] kind = "u" -> BytesOf(c, 2) [] OTHER -> BytesOf(c, 1)
  IN Join([i \in 1..Len(b) |-> Byte(b[i], how)])
SizeOf(kind) == CASE kind \in {"L", "u"} -> 2 [] kind = "U" -> 4 [] OTHER -> 1
Fits(c, kind) == CASE kind \in {"L", "u"} -> c < 65536 [] kind = "U" -> TRUE [] OTHER -> c < 256

Encode(cs, kind, len, how) ==
  "??_C@_" \o (IF kind = "L" THEN "1" ELSE "0") \o NumText(len) \o "PKCBDBNK@"
    \o Join([i \in 1..Len(cs) |-> Unit(cs[i], kind, how)]) \o "@"

(***************************************************************************)
(* What is printed                                                         *)
(***************************************************************************)
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexStr[n + 1] ELSE HexText(n \div 16) \o HexStr[(n % 16) + 1]
ShownChar(c) ==
  CASE c = 0 -> "\\0" [] c = 39 -> "\\'" [] c = 34 -> "\\\"" [] c = 92 -> "\\\\" [] c = 7 -> "\\a" [] c = 8 -> "\\b"
    [] c = 9 -> "\\t" [] c = 10 -> "\\n" [] c = 11 -> "\\v" [] c = 12 -> "\\f" [] c = 13 -> "\\r"
    [] c \in 32..126 -> CharOfCode[c]
    [] OTHER -> "\\x" \o (IF c < 16 THEN "0" ELSE "") \o HexText(c)
ShownText(cs) == Join([i \in 1..Len(cs) |-> ShownChar(cs[i])])
Literal(kind, cs, trunc) == (IF kind = "n" THEN "" ELSE kind) \o "\"" \o ShownText(cs) \o "\"" \o (IF trunc THEN "..." ELSE "")

\* The character type of a narrow literal is inferred; for these texts the inference has to be right.
Sure(kind, cs, trunc, len) ==
  \* compilers cut wide literals after 64 bytes, so a longer one counts as truncated
  \/ kind = "L" /\ (trunc \/ len <= 64)
  \/ kind = "n" /\ len % 2 = 1
  \/ /\ cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in 1..127
     /\ ~trunc \/ (Len(cs) * SizeOf(kind) \in 32..128 /\ (kind = "U" => len % 4 = 0) /\ (kind = "u" => len % 2 = 0))

Kinds == {"n", "u", "U", "L"}
Cases ==
  LET ok(kind) == \A i \in 1..Len(theText) : Fits(theText[i], kind)
      zero == Append(theText, 0)
  IN { [kind |-> k, cs |-> zero, shown |-> theText, trunc |-> FALSE, len |-> Len(zero) * SizeOf(k)] :
         k \in {k \in Kinds : ok(k)} }
     \* truncated: nothing is left out, something is missing
     \cup { x \in { [kind |-> k, cs |-> theText, shown |-> theText, trunc |-> TRUE, len |-> l] :
                      k \in {k \in Kinds : ok(k)}, l \in {66, 67, 68, 100, 4097} } :
             x.len > Len(theText) * SizeOf(x.kind) }

\* a terminator of another length, or characters without their terminator
Odd ==
  LET ok(kind) == \A i \in 1..Len(theText) : Fits(theText[i], kind)
  IN { [kind |-> k, cs |-> cs, len |-> l] :
       k \in {k \in Kinds : ok(k)}, cs \in {theText, Append(theText, 0), theText \o <<0, 0>>},
       l \in {0, 1, 2, Len(theText), Len(theText) + 1, 2 * Len(theText), 4 * Len(theText), 31, 32, 64} }

CountOk(x) == x.kind = "L" \/ Len(x.cs) * SizeOf(x.kind) <= 128
Check(x) ==
  \A how \in {"compiler", "hex", "raw"} :
    LET t == Encode(x.cs, x.kind, x.len, how)
        r == TLCEval(Shown(t, 0))
    IN /\ CountOk(x) => (x.len < Len(x.cs) * SizeOf(x.kind) /\ x.kind # "L")
                        \/ Law("literal", t, r.r = "O" /\ (Sure(x.kind, x.shown, x.trunc, x.len) =>
                                                             r.t = Literal(x.kind, x.shown, x.trunc)))
       /\ CountOk(x) \/ Law("too long", t, r.r = "E")
       /\ Vector(<<t>>, FlagsUsed)

LawfulHere ==
  (Sizes = {} \/ Len(theText) \in Sizes) =>
    /\ \A x \in Cases : Check(x)
    /\ "odd" \in Deep => \A x \in Odd : Vector(<<Encode(x.cs, x.kind, x.len, "compiler")>>, FlagsUsed)

Init == Starts1 /\ InitDue
Next == (Grow /\ GrowDue) \/ Examine(rest)
Lawful == (Lazy /\ due) \/ LawfulHere
=============================================================================
