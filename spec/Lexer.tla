--------------------------------- MODULE Lexer ----------------------------------
(* The lexical tokens of a Fortran statement text, by longest match.              *)
(* Lex(text) is the sequence of tokens [t text, k kind, b first, e last position]. *)
EXTENDS Text

\* Keywords; FLPR names the kind of a keyword by its upper-case spelling.
KeywordSet == {
  "abstract", "acquired_lock", "all", "allocatable", "allocate", "assignment",
  "associate", "asynchronous", "backspace", "bind", "block", "call", "case",
  "character", "class", "close", "codimension", "common", "complex", "concurrent",
  "contains", "contiguous", "continue", "critical", "cycle", "data", "deallocate",
  "default", "deferred", "dimension", "do", "double", "doubleprecision", "dowhile",
  "elemental", "else", "end", "entry", "enum", "enumerator", "eor", "equivalence",
  "err", "errmsg", "error", "event", "exit", "extends", "external", "fail", "file",
  "final", "flush", "forall", "form", "format", "formatted", "function", "generic",
  "go", "id", "if", "image", "images", "implicit", "import", "impure", "in",
  "include", "inout", "inquire", "integer", "intent", "interface", "intrinsic",
  "iomsg", "iostat", "is", "kind", "len", "local", "local_init", "lock", "logical",
  "memory", "module", "mold", "name", "namelist", "new_index", "non_intrinsic",
  "non_overridable", "non_recursive", "none", "nopass", "nullify", "only", "open",
  "operator", "optional", "out", "parameter", "pass", "pointer", "post",
  "precision", "print", "private", "procedure", "program", "protected", "public",
  "pure", "quiet", "rank", "read", "real", "recursive", "result", "return",
  "rewind", "save", "select", "sequence", "shared", "source", "stat", "stop",
  "submodule", "subroutine", "sync", "target", "team", "team_number", "then", "to",
  "type", "unformatted", "unit", "unlock", "until_count", "use", "value",
  "volatile", "wait", "where", "while", "write"}
\* Adjacent keywords whose separating blank is optional (Fortran 2018, 6.3.2.2),
\* with the length of the first one.
Fused == {
  <<"blockdata", 5>>, <<"elseif", 4>>, <<"elsewhere", 4>>, <<"endassociate", 3>>,
  <<"endblock", 3>>, <<"endcritical", 3>>, <<"enddo", 3>>, <<"endenum", 3>>,
  <<"endfile", 3>>, <<"endforall", 3>>, <<"endfunction", 3>>, <<"endif", 3>>,
  <<"endinterface", 3>>, <<"endmodule", 3>>, <<"endprocedure", 3>>,
  <<"endprogram", 3>>, <<"endselect", 3>>, <<"endsubmodule", 3>>,
  <<"endsubroutine", 3>>, <<"endteam", 3>>, <<"endtype", 3>>, <<"endwhere", 3>>,
  <<"goto", 2>>, <<"selectcase", 6>>, <<"selecttype", 6>>}
FusedWords == {f[1] : f \in Fused}
FusedLen(w) == (CHOOSE f \in Fused : f[1] = w)[2]

UpperOf == [c \in LowerAlpha |-> CHOOSE u \in UpperAlpha : LowerOf[u] = c]
UpCh == [c \in LowerAlpha \cup {"_"} |-> IF c = "_" THEN "_" ELSE UpperOf[c]]
RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) == IF i > Len(s) THEN "" ELSE UpCh[Ch(s, i)] \o UpperFrom(s, i + 1)
KeywordKind == [w \in KeywordSet |-> UpperFrom(w, 1)]

\* Symbols of two characters win over symbols of one.
Sym2 == [s \in {"..", "::", "**", "//", "=>", "==", "/=", "<=", ">="} |-> s]
Sym1 == [s \in {"(", ")", "[", "]", "+", "-", "=", ":", ";", "/", "%", ",", "*", "|", "<", ">"} |-> s]
DotOps == (".eq." :> "==") @@ (".ne." :> "/=") @@ (".lt." :> "<") @@ (".le." :> "<=")
       @@ (".gt." :> ">") @@ (".ge." :> ">=") @@ (".not." :> ".NOT.") @@ (".and." :> ".AND.")
       @@ (".or." :> ".OR.") @@ (".eqv." :> ".EQV.") @@ (".neqv." :> ".NEQV.")
       @@ (".false." :> ".FALSE.") @@ (".true." :> ".TRUE.")

Tok(s, k, b, e) == [t |-> SubSeq(s, b, e), k |-> k, b |-> b, e |-> e]

\* end of a digit string / name starting at i (i - 1 if there is none)
DigEnd(s, i)  == SkipIn(s, i, Digits) - 1
NameEnd(s, i) == IF Ch(s, i) \in Alpha THEN SkipIn(s, i, NameCh) - 1 ELSE i - 1
\* end of an optional kind suffix "_kind" starting at i
KindEnd(s, i) == IF Ch(s, i) # "_" THEN i - 1
                 ELSE IF Ch(s, i + 1) \in Digits THEN DigEnd(s, i + 1)
                 ELSE IF Ch(s, i + 1) \in Alpha THEN NameEnd(s, i + 1) ELSE i - 1
\* end of an exponent starting at i
ExpEnd(s, i)  == IF Ch(s, i) \notin {"e", "E", "d", "D"} THEN i - 1
                 ELSE LET j == IF Ch(s, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1
                      IN IF Ch(s, j) \in Digits THEN DigEnd(s, j) ELSE i - 1
\* end of a significand "ddd.ddd" / ".ddd" starting at i (i - 1 if there is none)
SigEnd(s, i)  == LET d == DigEnd(s, i) IN
                 IF d >= i THEN (IF Ch(s, d + 1) = "." THEN DigEnd(s, d + 2) ELSE i - 1)
                 ELSE IF Ch(s, i) = "." /\ Ch(s, i + 1) \in Digits THEN DigEnd(s, i + 1) ELSE i - 1
\* end of a dotted operator ".letters." starting at i
DotEnd(s, i)  == IF Ch(s, i) # "." THEN i - 1
                 ELSE LET j == SkipIn(s, i + 1, Alpha)
                      IN IF j > i + 1 /\ Ch(s, j) = "." THEN j ELSE i - 1
RECURSIVE StrBody(_, _, _)
\* closing quote of a string whose body starts at i; a doubled quote is a character
StrBody(s, i, q) == LET j == FindCh(s, i, q) IN
                    IF j = 0 THEN 0 ELSE IF Ch(s, j + 1) = q THEN StrBody(s, j + 2, q) ELSE j

RealToks(s, i, se) ==
  LET ee == ExpEnd(s, se + 1)
      ke == KindEnd(s, ee + 1)
  IN <<Tok(s, "significand", i, se)>>
     \o (IF ee > se THEN <<Tok(s, "exponent-letter", se + 1, se + 1),
                           Tok(s, "exponent", se + 2, ee)>> ELSE <<>>)
     \o (IF ke > ee THEN <<Tok(s, "_", ee + 1, ee + 1), Tok(s, "kind-param", ee + 2, ke)>>
                    ELSE <<>>)

StrTok(s, i, q) ==   \* i: start of the token, q: position of its opening quote
  LET e == StrBody(s, q + 1, Ch(s, q))
  IN IF e = 0 THEN <<>> ELSE <<Tok(s, "char-literal-constant", i, e)>>

NumToks(s, i) ==
  LET d  == DigEnd(s, i)
      se == SigEnd(s, i)
      ie == KindEnd(s, d + 1)                     \* integer with optional kind
      intDot == DotEnd(s, ie + 1) > ie            \* 1.and.b : the dot belongs to .and.
      xe == ExpEnd(s, d + 1)
      str == IF Ch(s, d + 1) = "_" /\ Ch(s, d + 2) \in Quotes THEN StrTok(s, i, d + 2) ELSE <<>>
  IN IF str # <<>> THEN str
     ELSE IF intDot /\ ~(se >= i /\ ExpEnd(s, se + 1) > se) THEN
          <<Tok(s, "int-literal-constant", i, ie)>>
     ELSE IF se >= i THEN RealToks(s, i, se)
     ELSE IF xe > d THEN RealToks(s, i, d)
     ELSE <<Tok(s, "int-literal-constant", i, ie)>>

NameToks(s, i) ==
  LET e == NameEnd(s, i)
      w == Lower(SubSeq(s, i, e))
      str == IF Ch(s, e) = "_" /\ e > i /\ Ch(s, e + 1) \in Quotes THEN StrTok(s, i, e + 1) ELSE <<>>
  IN IF str # <<>> THEN str
     ELSE IF w \in KeywordSet THEN <<Tok(s, KeywordKind[w], i, e)>>
     ELSE IF w \in FusedWords THEN
          LET n == FusedLen(w) IN
          <<Tok(s, KeywordKind[Upto(w, n)], i, i + n - 1),
            Tok(s, KeywordKind[From(w, n + 1)], i + n, e)>>
     ELSE <<Tok(s, "name", i, e)>>

DotToks(s, i) ==
  LET de == DotEnd(s, i)
      w  == Lower(SubSeq(s, i, de))
      k  == IF w \in DOMAIN DotOps THEN DotOps[w] ELSE "defined-operator"
      ke == IF k \in {".TRUE.", ".FALSE."} THEN KindEnd(s, de + 1) ELSE de
  IN IF de > i THEN <<Tok(s, k, i, ke)>>
     ELSE IF SigEnd(s, i) > i THEN RealToks(s, i, SigEnd(s, i))
     ELSE IF Ch(s, i + 1) = "." THEN <<Tok(s, "..", i, i + 1)>>
     ELSE <<Tok(s, "<UNKNOWN>", i, i)>>

SymToks(s, i) ==
  LET two == SubSeq(s, i, Min2(i + 1, Len(s))) IN
  IF two \in DOMAIN Sym2 THEN <<Tok(s, Sym2[two], i, i + 1)>>
  ELSE IF Ch(s, i) \in DOMAIN Sym1 THEN <<Tok(s, Sym1[Ch(s, i)], i, i)>>
  ELSE <<Tok(s, "<UNKNOWN>", i, i)>>

\* the token(s) starting at the non-blank position i
ToksAt(s, i) ==
  LET c == Ch(s, i) IN
  IF c \in Alpha THEN NameToks(s, i)
  ELSE IF c \in Digits THEN NumToks(s, i)
  ELSE IF c \in Quotes THEN (IF StrTok(s, i, i) # <<>> THEN StrTok(s, i, i)
                             ELSE <<Tok(s, "<UNKNOWN>", i, i)>>)
  ELSE IF c = "." THEN DotToks(s, i)
  ELSE SymToks(s, i)

RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  LET j == SkipIn(s, i, Spaces) IN
  IF j > Len(s) THEN acc
  ELSE LET ts == ToksAt(s, j) IN LexFrom(s, ts[Len(ts)].e + 1, acc \o ts)
Lex(s) == LexFrom(s, 1, <<>>)

(* The standard requires a blank between adjacent names, keywords and constants.  *)
(* No claim is made about text where a numeric constant runs into something else.  *)
Runs(ts, k) == /\ ts[k].e + 1 = ts[k + 1].b
               /\ \/ ts[k].k \in {"int-literal-constant", "kind-param"}
                  \/ ts[k].k \in {"significand", "exponent"} /\ ts[k + 1].k \notin {"exponent-letter", "_"}
               /\ Ch(ts[k + 1].t, 1) \in NameCh \cup Quotes \cup {"."}
               /\ ~(ts[k].k = "int-literal-constant" /\ Ch(ts[k + 1].t, 1) = ".")
RunsTogether(ts) == \E k \in 1..Len(ts) - 1 : Runs(ts, k)
=================================================================================
