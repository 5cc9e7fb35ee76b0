---------------------------------- MODULE Text ----------------------------------
(* Character-level helpers.  Text is a TLA+ string; TLC evaluates Len, \o and   *)
(* SubSeq on strings, so character i of s is SubSeq(s, i, i) (1-based).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i)   == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))          \* characters i.. of s
Upto(s, i) == SubSeq(s, 1, i)               \* the first i characters of s

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
LowerAlpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z"}
LowerOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f",
            G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l",
            M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r",
            S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x",
            Y |-> "y", Z |-> "z"]
UpperAlpha == DOMAIN LowerOf
Alpha   == LowerAlpha \cup UpperAlpha
NameCh  == Alpha \cup Digits \cup {"_"}
Quotes  == {"'", "\""}
Blanks  == {" ", "\t", "\r"}                \* what the line analyser skips over
Spaces  == {" ", "\t", "\r"}

DigitVal == [c \in Digits |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

LowerCh(c) == IF c \in UpperAlpha THEN LowerOf[c] ELSE c

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerCh(Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

\* first position >= i holding a character outside S (Len+1 if there is none)
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i

\* last position <= i holding a character outside S (0 if there is none)
RECURSIVE SkipBackIn(_, _, _)
SkipBackIn(s, i, S) == IF i >= 1 /\ Ch(s, i) \in S THEN SkipBackIn(s, i - 1, S) ELSE i

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)

Pad(s, n) == s \o Rep(" ", n - Len(s))

HasAt(s, i, w) == i >= 1 /\ i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w

RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE IF Ch(s, i) \in Digits
                           THEN NumFrom(s, i + 1, 10 * acc + DigitVal[Ch(s, i)])
                           ELSE NumFrom(s, i + 1, acc)
NumOf(s) == NumFrom(s, 1, 0)

RECURSIVE FindCh(_, _, _)
\* first position >= i of character c (0 if none)
FindCh(s, i, c) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindCh(s, i + 1, c)

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=================================================================================
