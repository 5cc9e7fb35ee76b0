------------------------------- MODULE SourceForm -------------------------------
(* How one physical line of Fortran source is read.                              *)
(*                                                                                *)
(* The reader is a state machine whose state is carried from line to line:        *)
(*    od    the quote character of a character context left open ("" if none)     *)
(*    cont  the previous text line asked to be continued (free form only)         *)
(*    lit   inside a FLPR literal block (free form only)                          *)
(*    mac   the previous line is a preprocessor line ending in a backslash        *)
(* Reading a line produces the five fields                                        *)
(*    lt ls mt rs rt   (left text, left space, main text, right space, right text)*)
(* the class flags, and the new reader state.  A line can also be refused.        *)
EXTENDS Text

InitReader == [od |-> "", cont |-> FALSE, lit |-> FALSE, mac |-> FALSE]

Line(lt, ls, mt, rs, rt, od, fl) ==
  [lt |-> lt, ls |-> ls, mt |-> mt, rs |-> rs, rt |-> rt, od |-> od, fl |-> fl]
Whole(raw, fl) == Line(raw, "", "", "", "", "", fl)
Refused == Whole("", "refused")
\* a label or continuation mark with nothing but commentary after it: no claim is made
Unspecified == Whole("", "unspecified")

IsIncludeAt(s, i) ==
  /\ Len(s) >= i + 7
  /\ Lower(SubSeq(s, i, i + 6)) = "include"
  /\ Ch(s, SkipIn(s, i + 7, {" "})) \in Quotes

IsDirectiveAt(s, i) == HasAt(s, i + 1, "#flpr")
IsLiteralAt(s, i)   == IsDirectiveAt(s, i) /\ HasAt(s, i + 6, " literal")

OnlySpaceFrom(s, i) == SkipIn(s, i, Spaces) > Len(s)

EndsInBackslash(s) == Ch(s, SkipBackIn(s, Len(s), {" ", "\t"})) = "\\"

---------------------------------------------------------------------------------
(* Free form.  Scan the statement text from position i in character context ctx:  *)
(* the text ends at the first '!' or '&' that is outside a character context, or  *)
(* at an '&' inside one that is the last thing on the line.                        *)
RECURSIVE ScanFree(_, _, _)
ScanFree(s, i, ctx) ==
  IF i > Len(s) THEN (IF ctx = "" THEN [at |-> i, od |-> "", ok |-> TRUE]
                                  ELSE [at |-> i, od |-> ctx, ok |-> FALSE])
  ELSE LET c == Ch(s, i) IN
       IF ctx = "" THEN IF c \in {"!", "&"} THEN [at |-> i, od |-> "", ok |-> TRUE]
                        ELSE ScanFree(s, i + 1, IF c \in Quotes THEN c ELSE "")
       ELSE IF c = ctx THEN ScanFree(s, i + 1, "")
       ELSE IF c = "&" /\ OnlySpaceFrom(s, i + 1) THEN [at |-> i, od |-> ctx, ok |-> TRUE]
       ELSE ScanFree(s, i + 1, ctx)

\* split a body [i, at) into main text and the blanks that follow it
BodySplit(s, i, at, od) ==
  LET body == SubSeq(s, i, at - 1)
      last == IF od # "" THEN Len(body) ELSE SkipBackIn(body, Len(body), {" ", "\t"})
  IN <<Upto(body, last), From(body, last + 1)>>

FreeText(raw, first, st) ==
  LET c      == Ch(raw, first)
      isLab  == ~st.cont /\ c \in Digits
      isAmp  == c = "&"
      labEnd == Min2(SkipIn(raw, first, Digits), first + 6)
      ltEnd  == IF isLab THEN labEnd - 1 ELSE IF isAmp THEN first ELSE 0
      body   == IF isLab THEN SkipIn(raw, labEnd, Spaces)
                ELSE IF isAmp THEN first + 1 ELSE first
      sc     == ScanFree(raw, body, st.od)
      parts  == BodySplit(raw, body, sc.at, sc.od)
      contd  == sc.at <= Len(raw) /\ Ch(raw, sc.at) = "&"
  IN IF ~sc.ok THEN Refused
     ELSE Line(Upto(raw, ltEnd), SubSeq(raw, ltEnd + 1, body - 1), parts[1], parts[2],
               From(raw, sc.at), sc.od,
               (IF contd THEN "T" ELSE "") \o (IF isAmp THEN "L" ELSE "")
               \o (IF isLab THEN "l" ELSE ""))

\* the line as read, and the next reader state
FreeLine(raw, st) ==
  LET first == SkipIn(raw, 1, Blanks)
      empty == first > Len(raw)
      c     == Ch(raw, first)
  IN IF st.mac THEN
        [line |-> Whole(raw, "p"), st |-> [st EXCEPT !.mac = EndsInBackslash(raw)]]
     ELSE IF st.lit THEN
        [line |-> Whole(raw, "x"),
         st |-> [od |-> "", cont |-> FALSE, mac |-> FALSE,
                 lit |-> ~(~empty /\ c = "!" /\ IsLiteralAt(raw, first))]]
     ELSE IF empty THEN [line |-> Whole(raw, "b"), st |-> st]
     ELSE IF first = 1 /\ c = "#" THEN
        [line |-> Whole(raw, "p"), st |-> [InitReader EXCEPT !.mac = EndsInBackslash(raw)]]
     ELSE IF IsIncludeAt(raw, first) THEN
        [line |-> Whole(raw, "i"), st |-> InitReader]
     ELSE IF c = "!" THEN
        IF IsLiteralAt(raw, first)
        THEN [line |-> Whole(raw, "x"), st |-> [InitReader EXCEPT !.lit = TRUE]]
        ELSE IF IsDirectiveAt(raw, first)
        THEN [line |-> Whole(raw, "f"), st |-> InitReader]
        ELSE [line |-> Whole(raw, IF st.cont THEN "cT" ELSE "c"), st |-> st]
     ELSE LET l == FreeText(raw, first, st)
          IN IF l = Refused THEN [line |-> Refused, st |-> st]
             ELSE [line |-> l,
                   st |-> [od |-> l.od, cont |-> HasAt(l.fl, 1, "T"),
                           lit |-> FALSE, mac |-> FALSE]]

---------------------------------------------------------------------------------
(* Fixed form.  Columns 1-5 hold a label, column 6 a continuation mark; text past *)
(* column lc (if lc > 0) is commentary.                                            *)
ExpandTabs(raw) ==
  LET tb == FindCh(raw, 1, "\t")
  IN IF tb = 0 \/ tb > 6 THEN raw
     ELSE LET te == SkipIn(raw, tb, {"\t"}) IN
          Upto(raw, tb - 1) \o Rep(" ", 6 * (te - tb)) \o From(raw, te)

RECURSIVE ScanFixed(_, _, _, _)
ScanFixed(s, i, ctx, lim) ==
  IF i > lim THEN [at |-> lim + 1, od |-> ctx]
  ELSE LET c == Ch(s, i) IN
       IF ctx = "" THEN IF c = "!" THEN [at |-> i, od |-> ""]
                        ELSE ScanFixed(s, i + 1, IF c \in Quotes THEN c ELSE "", lim)
       ELSE ScanFixed(s, i + 1, IF c = ctx THEN "" ELSE ctx, lim)

\* commentary past the last column is made explicit
Commentary(rt) ==
  LET i == SkipIn(rt, 1, Blanks)
  IN IF i > Len(rt) THEN "" ELSE IF Ch(rt, i) \in {"&", "!"} THEN rt ELSE "! " \o rt

FixedText(raw, first, st, lc) ==
  LET c      == Ch(raw, first)
      isMark == first = 6
      isLab  == first < 6 /\ c \in Digits
      labEnd == Min2(SkipIn(raw, first, Digits), 7)
      ltEnd  == IF isMark THEN 6 ELSE IF isLab THEN labEnd - 1 ELSE 0
      body   == IF ltEnd > 0 /\ st.od = "" THEN SkipIn(raw, ltEnd + 1, Spaces)
                ELSE IF ltEnd > 0 THEN ltEnd + 1 ELSE first
      flags  == (IF isMark /\ c # "0" THEN "L" ELSE "") \o (IF isLab THEN "l" ELSE "")
      lim    == IF lc > 0 THEN Min2(lc, Len(raw)) ELSE Len(raw)
      sc     == ScanFixed(raw, body, st.od, lim)
      rt     == From(raw, sc.at)
      rt2    == IF lc > 0 /\ sc.at = lc + 1 THEN Commentary(rt) ELSE rt
      parts  == BodySplit(raw, body, sc.at, sc.od)
  IN IF ltEnd > 0 /\ body > Len(raw) /\ st.od # "" THEN Unspecified
     ELSE IF ltEnd > 0 /\ body > Len(raw) THEN Whole(raw, "b" \o flags \o "F")
     ELSE IF ltEnd > 0 /\ lc > 0 /\ body > lc THEN Unspecified
     ELSE IF sc.at <= body THEN Refused
     ELSE Line(Upto(raw, ltEnd), SubSeq(raw, 7, body - 1), parts[1], parts[2], rt2,
               sc.od, flags \o "F")

FixedLine(raw0, st, lc) ==
  LET raw   == ExpandTabs(raw0)
      first == SkipIn(raw, 1, Blanks)
      empty == first > Len(raw)
      c     == Ch(raw, first)
      next(od) == [InitReader EXCEPT !.od = od]
  IN IF st.mac THEN
        [line |-> Whole(raw0, "pF"), st |-> [st EXCEPT !.mac = EndsInBackslash(raw0)]]
     ELSE IF empty THEN [line |-> Whole(raw, "bF"), st |-> st]
     ELSE IF lc > 0 /\ first > lc /\ c # "!" THEN
        [line |-> Whole(Upto(raw, lc) \o "! " \o From(raw, lc + 1), "cF"), st |-> st]
     ELSE IF first = 1 /\ c = "#" THEN
        [line |-> Whole(raw, "pF"), st |-> [InitReader EXCEPT !.mac = EndsInBackslash(raw)]]
     ELSE IF first # 6 /\ IsIncludeAt(raw, first) THEN
        [line |-> Whole(raw, "iF"), st |-> InitReader]
     ELSE IF first # 6 /\ (c = "!" \/ (first = 1 /\ c \in {"*", "c", "C"})) THEN
        IF IsLiteralAt(raw, first) THEN [line |-> Refused, st |-> st]
        ELSE IF IsDirectiveAt(raw, first)
        THEN [line |-> Whole(raw, "fF"), st |-> InitReader]
        ELSE [line |-> Whole(raw, "cF"), st |-> st]
     ELSE LET l == FixedText(raw, first, st, lc)
          IN IF l \in {Refused, Unspecified} THEN [line |-> l, st |-> st]
             ELSE IF HasAt(l.fl, 1, "b") THEN [line |-> l, st |-> st]
             ELSE [line |-> l, st |-> next(l.od)]

ReadLine(form, lc, raw, st) ==
  IF form = "free" THEN FreeLine(raw, st) ELSE FixedLine(raw, st, lc)

---------------------------------------------------------------------------------
HasFlag(l, f) == FindCh(l.fl, 1, f) # 0
IsTrivial(l)  == HasFlag(l, "b") \/ HasFlag(l, "c")
IsText(l)     == ~IsTrivial(l) /\ ~HasFlag(l, "p") /\ ~HasFlag(l, "i")
                 /\ ~HasFlag(l, "f") /\ ~HasFlag(l, "x")
IsFixed(l)    == HasFlag(l, "F")
IsContinued(l)    == HasFlag(l, "T")
IsContinuation(l) == HasFlag(l, "L")

\* what writing the line produces
Written(l) == (IF IsFixed(l) /\ IsText(l) THEN Pad(l.lt, 6) ELSE l.lt)
              \o l.ls \o l.mt \o l.rs \o l.rt
\* (1-based) column of the first character of the main text, 0 if there is none
MainCol(l) == IF l.mt = "" THEN 0
              ELSE 1 + (IF IsFixed(l) THEN 6 ELSE Len(l.lt)) + Len(l.ls)

RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(form, lc, raws, st, acc) ==
  IF raws = <<>> THEN acc
  ELSE LET r == ReadLine(form, lc, Head(raws), st)
       IN IF r.line \in {Refused, Unspecified} THEN <<r.line>>
          ELSE ReadFrom(form, lc, Tail(raws), r.st, Append(acc, r.line))
ReadLines(form, lc, raws) == ReadFrom(form, lc, raws, InitReader, <<>>)
=================================================================================
