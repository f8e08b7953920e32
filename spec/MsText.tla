------------------------------- MODULE MsText -------------------------------
(***************************************************************************)
(* Text, characters, flags and exact numbers.                              *)
(*                                                                         *)
(* A text is a TLA+ string, i.e. a sequence of characters; characters are  *)
(* strings of length one.  Characters outside the Basic Multilingual Plane *)
(* are represented by private-use stand-ins (the conformance harness       *)
(* applies this one-to-one renaming to inputs and outputs alike), so that  *)
(* one character is one position everywhere in this specification.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CharData == JsonDeserialize("chars.json")
CharRows == CharData.rows                        \* <<char, code point, UTF-8 width, alphanumeric?>>
Alphabet == {CharRows[i][1] : i \in 1..Len(CharRows)}
CharInfo == [c \in Alphabet |-> CHOOSE r \in {CharRows[i] : i \in 1..Len(CharRows)} : r[1] = c]
Latin1   == {c \in Alphabet : CharInfo[c][2] < 256}
Ascii    == {c \in Alphabet : CharInfo[c][2] < 128}
Alnum    == {c \in Alphabet : CharInfo[c][4]}
Width(c) == CharInfo[c][3]
CodeOf(c) == CharInfo[c][2]

Digit  == {"0","1","2","3","4","5","6","7","8","9"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
           "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
           "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Nibble == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P"}
DigitVal == [c \in Digit |-> CodeOf(c) - 48]
NibbleVal == [c \in Nibble |-> CodeOf(c) - 65]
DigitStr == <<"0","1","2","3","4","5","6","7","8","9">>
HexStr == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>

LastOf(t) == SubSeq(t, Len(t), Len(t))
CharsOfF == [t \in Any |-> TLCEval([i \in 1..Len(t) |-> SubSeq(t, i, i)])]
CharsOf(t) == CharsOfF[t]
RECURSIVE JoinF
JoinF == [chunks \in Any |->
  IF Len(chunks) <= 16 THEN FoldLeft(LAMBDA a, c : a \o c, "", chunks)
  ELSE LET h == Len(chunks) \div 2
       IN JoinF[SubSeq(chunks, 1, h)] \o JoinF[SubSeq(chunks, h + 1, Len(chunks))]]
Join(chunks) == JoinF[chunks]
WidthOfF == [t \in Any |-> IF t = "" THEN 0 ELSE FoldLeft(LAMBDA a, c : a + Width(c), 0, CharsOf(t))]
WidthOf(t) == WidthOfF[t]

(***************************************************************************)
(* Output flags: the ten documented switches, decoded from the public bit  *)
(* mask.                                                                   *)
(***************************************************************************)
Bit(k, i) == (k \div i) % 2 = 1
Flags(k) == [ cc   |-> Bit(k, 1),    tag |-> Bit(k, 2),   acc |-> Bit(k, 4),
              mem  |-> Bit(k, 8),    ret |-> Bit(k, 16),  var |-> Bit(k, 32),
              this |-> Bit(k, 64),   und |-> Bit(k, 128), ms  |-> Bit(k, 256),
              name |-> Bit(k, 512),  any |-> (k # 0) ]
NoFlags == Flags(0)

\* The public names of the switches (synonyms included), and the mask of a collection of them.
BitOf == [ NO_CALLING_CONVENTION |-> 1, NO_ALLOCATION_LANGUAGE |-> 1, NO_TAG_SPECIFIER |-> 2, NO_ECSU |-> 2,
           NO_ACCESS_SPECIFIER |-> 4, NO_ACCESS_SPECIFIERS |-> 4, NO_MEMBER_TYPE |-> 8, NO_RETURN_TYPE |-> 16,
           NO_FUNCTION_RETURNS |-> 16, NO_VARIABLE_TYPE |-> 32, NO_THISTYPE |-> 64,
           NO_LEADING_UNDERSCORES |-> 128, NO_MS_KEYWORDS |-> 256, NAME_ONLY |-> 512 ]
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x + SumOf(S \ {x})
MaskOf(names) == SumOf({BitOf[names[i]] : i \in DOMAIN names})

(***************************************************************************)
(* Exact numbers: sequences of base-16 digits, most significant first.     *)
(***************************************************************************)
RECURSIVE Strip(_)
Strip(h) == IF h # <<>> /\ Head(h) = 0 THEN Strip(Tail(h)) ELSE h

\* Numbers are kept modulo 2^64 (sixteen base-16 digits).
Low(h, k) == IF Len(h) > k THEN SubSeq(h, Len(h) - k + 1, Len(h)) ELSE h
Mod64(h) == Strip(Low(h, 16))
Mod32(h) == Strip(Low(h, 8))

\* one step of Horner's rule on decimal digits (least significant first)
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, a) ==
  IF ds = <<>> THEN (IF a = 0 THEN <<>>
                     ELSE IF a < 10 THEN <<a>> ELSE <<a % 10>> \o MulAdd(<<>>, m, a \div 10))
  ELSE LET v == Head(ds) * m + a IN <<v % 10>> \o MulAdd(Tail(ds), m, v \div 10)

DecimalF == [h \in Any |->
  LET ds == FoldLeft(LAMBDA acc, x : MulAdd(acc, 16, x), <<>>, h)
  IN IF ds = <<>> THEN "0"
     ELSE Join([i \in 1..Len(ds) |-> DigitStr[ds[Len(ds) - i + 1] + 1]])]
Decimal(h) == DecimalF[h]

SignedDecimal(neg, h) == (IF neg /\ h # <<>> THEN "-" ELSE "") \o Decimal(h)

\* 2^32 - h for 0 < h < 2^32
Negate32(h) ==
  LET full == [i \in 1..(8 - Len(h)) |-> 0] \o h
      inv  == [i \in 1..8 |-> 15 - full[i]]
      inc[i \in 0..8] == IF i = 0 THEN <<>>   \* digits 9-i .. 8 of inv + 1
                         ELSE LET r == inc[i - 1]
                                  carry == \A j \in (9 - i + 1)..8 : inv[j] = 15
                                  d == inv[9 - i] + (IF carry THEN 1 ELSE 0)
                              IN <<d % 16>> \o r
  IN Strip(inc[8])

\* an unsigned number reduced to 32 bits, of a 64-bit two's complement value
AsU32(neg, h) == LET l == Mod32(h) IN IF neg /\ l # <<>> THEN Negate32(l) ELSE l
IsTop32(h) == Len(h) = 8 /\ h[1] >= 8
AsI32Str(neg, h) ==
  LET u == AsU32(neg, h)
  IN IF IsTop32(u) THEN "-" \o Decimal(Negate32(u)) ELSE Decimal(u)

FitsU32(h) == Len(h) <= 8
FitsI64(h) == Len(h) < 16 \/ (Len(h) = 16 /\ h[1] < 8)
FitsI32(neg, h) == \/ Len(h) < 8 \/ (Len(h) = 8 /\ h[1] < 8)
                   \/ (neg /\ h = <<8, 0, 0, 0, 0, 0, 0, 0>>)

\* a small integer with the same value, or a larger one with the same residue modulo 4
CappedF == [h \in Any |->
  LET small == FoldLeft(LAMBDA a, x : 16 * a + x, 0, Low(h, 4))
  IN IF Len(h) <= 4 THEN small ELSE 65536 + small]
Capped(h) == CappedF[h]
=============================================================================
