------------------------------- MODULE Scanner -------------------------------
(* Where interpolations in text begin and end (property C03).

   The state is a text, one character longer with every step, and what an
   online reader knows about it: the segments that are complete, the literal
   text and the expression it is within.  TLC enumerates every text over an
   alphabet up to a bound, after each of some prefixes, checks the invariants
   below and prints what each text consists of; the real scanner is held
   against that.

   Alphabet, prefixes and the bound come from the environment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.SC_PARAMS)
Alphabet == {Params.alphabet[j] : j \in DOMAIN Params.alphabet}
Beginnings == {Params.prefixes[j] : j \in DOMAIN Params.prefixes}
Bound == Params.bound
Suffix == Params.suffix       \* text appended after what the text ends within is completed

VARIABLES text,     \* the text so far
          rest,     \* how much of it is not read yet
          left,     \* how often it can still be extended
          st        \* what is known about what is read
vars == <<text, rest, left, st>>

Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
            "u", "v", "w", "x", "y", "z", "A", "B", "X", "Z", "_"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* foreign letters continue a name but do not start an interpolation
WordChars == Letters \cup Digits \cup {Params.foreign[j] : j \in DOMAIN Params.foreign}
NameStart == WordChars \ Digits
Openers == {"(", "[", "{"}
\* on the stack of open brackets, "f" and "F" with a quote are replacement
\* fields of an f-string and of a format specification within one
Closer(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] OTHER -> "}"
Field(c) == Len(c) = 2
Quote(c) == SubSeq(c, 2, 2)
FPrefix == {"f", "F", "rf", "fr", "Rf", "fR", "rF", "Fr"}
Closers == {")", "]", "}"}
Quotes == {"'", "\""}

Start == [segs |-> << >>, lit |-> "", m |-> "text", src |-> "", stk |-> << >>, sub |-> "code", q |-> "", w |-> ""]

Error(s) == [s EXCEPT !.m = "error", !.segs = << >>, !.lit = "", !.src = "", !.stk = << >>, !.sub = "code", !.q = "", !.w = ""]
\* f-strings in triple quotes and the like are left open
Unknown(s) == [Error(s) EXCEPT !.m = "unknown"]

Flush(s) == IF s.lit = "" THEN s ELSE [s EXCEPT !.segs = Append(@, [k |-> "t", s |-> s.lit]), !.lit = ""]
Close(s) == [s EXCEPT !.segs = Append(@, [k |-> "e", s |-> s.src]), !.m = "text", !.src = "", !.w = ""]

\* literal text
TextStep(s, c) == IF c = "$" THEN [s EXCEPT !.m = "dollar"] ELSE [s EXCEPT !.m = "text", !.lit = @ \o c]

DollarStep(s, c) ==
    IF c = "$" THEN [s EXCEPT !.m = "text", !.lit = @ \o "$"]
    ELSE IF c = "{" THEN [Flush(s) EXCEPT !.m = "braced", !.src = "", !.stk = << >>, !.sub = "code"]
    ELSE IF c \in Letters THEN [Flush(s) EXCEPT !.m = "name", !.src = c]
    ELSE TextStep([s EXCEPT !.lit = @ \o "$"], c)

\* Python code within brackets: strings, comments and nested brackets
EndField(s) ==
    LET c == Last(s.stk)
    IN [s EXCEPT !.stk = Front(@), !.q = Quote(c), !.sub = IF SubSeq(c, 1, 1) = "f" THEN "fstr" ELSE "fspec"]

RECURSIVE CodeStep(_, _)
CodeStep(s0, c) ==
    LET s == [s0 EXCEPT !.src = @ \o c,
                        !.w = IF s0.sub = "code" /\ c \in WordChars THEN @ \o c ELSE ""]
        top == IF s.stk = << >> THEN "" ELSE Last(s.stk)
    IN CASE s.sub = "code" ->
              (IF c \in Quotes THEN [s EXCEPT !.sub = IF s0.w \in FPrefix THEN "f1" ELSE "q1", !.q = c]
               ELSE IF c = "#" THEN [s EXCEPT !.sub = "comment"]
               ELSE IF c = "\\" THEN [s EXCEPT !.sub = "join"]
               ELSE IF c \in Openers THEN [s EXCEPT !.stk = Append(@, c)]
               ELSE IF c = ":" /\ Field(top) THEN [s EXCEPT !.sub = "fspec"]
               ELSE IF c \in Closers THEN
                    IF s.stk = << >> THEN
                       IF c = "}" THEN Close(s0) ELSE Error(s)      \* the brace that ends ${...}
                    ELSE IF Closer(top) # c THEN Error(s)
                    ELSE IF Field(top) THEN EndField(s)
                    ELSE IF Len(s.stk) = 1 /\ s.m = "trailer" THEN [s EXCEPT !.stk = << >>, !.m = "after"]
                    ELSE [s EXCEPT !.stk = Front(@)]
               ELSE s)
         [] s.sub \in {"f1", "fstr"} ->
              (IF c = s.q THEN [s EXCEPT !.sub = IF s.sub = "f1" THEN "f2" ELSE "code"]
               ELSE IF c = "\\" THEN [s EXCEPT !.sub = "fesc"]
               ELSE IF c = "{" THEN [s EXCEPT !.sub = "fopen"]
               ELSE IF c = "}" THEN [s EXCEPT !.sub = "fclose"]
               ELSE IF c = "\n" THEN Error(s)
               ELSE [s EXCEPT !.sub = "fstr"])
         [] s.sub = "f2" -> IF c = s.q THEN Unknown(s) ELSE CodeStep([s0 EXCEPT !.sub = "code"], c)
         [] s.sub = "fesc" -> IF c \in {"{", "}"} THEN Unknown(s) ELSE [s EXCEPT !.sub = "fstr"]
         [] s.sub = "fopen" ->
              (IF c = "{" THEN [s EXCEPT !.sub = "fstr"]
               ELSE IF c = "}" THEN Error(s)
               ELSE CodeStep([s0 EXCEPT !.sub = "code", !.stk = Append(@, "f" \o s.q)], c))
         [] s.sub = "fclose" -> IF c = "}" THEN [s EXCEPT !.sub = "fstr"] ELSE Error(s)
         [] s.sub = "fspec" ->
              (IF c = "{" THEN [s EXCEPT !.sub = "fsopen"]
               ELSE IF c = "}" THEN EndField(s)
               ELSE IF c \in Quotes THEN IF c = Quote(top) THEN Error(s) ELSE s
               ELSE IF c \in {"\\", "\n"} THEN Unknown(s)
               ELSE s)
         [] s.sub = "fsopen" ->
              (IF c = "{" THEN Unknown(s)
               ELSE IF c = "}" THEN Error(s)
               ELSE CodeStep([s0 EXCEPT !.sub = "code", !.stk = Append(@, "F" \o Quote(top))], c))
         [] s.sub \in {"q1", "str"} ->
              (IF c = s.q THEN [s EXCEPT !.sub = IF s.sub = "q1" THEN "q2" ELSE "code"]
               ELSE IF c = "\\" THEN [s EXCEPT !.sub = "esc"]
               ELSE IF c = "\n" THEN Error(s)
               ELSE [s EXCEPT !.sub = "str"])
         [] s.sub = "esc" -> [s EXCEPT !.sub = "str"]
         [] s.sub = "q2" ->
              (IF c = s.q THEN [s EXCEPT !.sub = "t0"] ELSE CodeStep([s0 EXCEPT !.sub = "code"], c))
         [] s.sub \in {"t0", "t1", "t2"} ->
              (IF c = s.q THEN [s EXCEPT !.sub = CASE s.sub = "t0" -> "t1" [] s.sub = "t1" -> "t2" [] OTHER -> "code"]
               ELSE IF c = "\\" THEN [s EXCEPT !.sub = "tesc"]
               ELSE [s EXCEPT !.sub = "t0"])
         [] s.sub = "tesc" -> [s EXCEPT !.sub = "t0"]
         [] s.sub = "comment" -> IF c = "\n" THEN [s EXCEPT !.sub = "code"] ELSE s
         [] s.sub = "join" -> IF c = "\n" THEN [s EXCEPT !.sub = "code"] ELSE Error(s)

\* an unbraced interpolation: a name and its trailers
NameStep(s, c) ==
    IF c \in WordChars /\ s.m = "name" THEN [s EXCEPT !.src = @ \o c]
    ELSE IF c = "." THEN [s EXCEPT !.m = "dot"]
    ELSE IF c \in {"(", "["} THEN [s EXCEPT !.m = "trailer", !.stk = <<c>>, !.sub = "code", !.src = @ \o c]
    ELSE TextStep(Close(s), c)

DotStep(s, c) ==
    IF c \in NameStart THEN [s EXCEPT !.m = "name", !.src = @ \o "." \o c]
    ELSE TextStep([Close(s) EXCEPT !.lit = "."], c)

Step(s, c) ==
    CASE s.m = "text" -> TextStep(s, c)
      [] s.m = "dollar" -> DollarStep(s, c)
      [] s.m \in {"name", "after"} -> NameStep(s, c)
      [] s.m = "dot" -> DotStep(s, c)
      [] s.m \in {"braced", "trailer"} -> CodeStep(s, c)
      [] s.m \in {"error", "unknown"} -> s

\* the end of the text
Finish(s) ==
    CASE s.m = "text" -> Flush(s)
      [] s.m = "dollar" -> Flush([s EXCEPT !.lit = @ \o "$", !.m = "text"])
      [] s.m \in {"name", "after"} -> Close(s)
      [] s.m = "dot" -> Flush([Close(s) EXCEPT !.lit = "."])
      [] s.m = "unknown" -> s
      [] OTHER -> Error(s)

RECURSIVE Read(_, _)
Read(s, w) == IF w = "" THEN s ELSE Read(Step(s, SubSeq(w, 1, 1)), SubSeq(w, 2, Len(w)))

\* what would end the interpolation the text ends within
RECURSIVE Closing(_)
Closing(stk) == IF stk = << >> THEN ""
                ELSE Closer(Last(stk)) \o (IF SubSeq(Last(stk), 1, 1) = "f" THEN Quote(Last(stk)) ELSE "") \o Closing(Front(stk))
Completion(s) ==
    IF s.m \notin {"braced", "trailer"} THEN ""
    ELSE (CASE s.sub \in {"q1", "str", "f1", "fstr"} -> s.q
            [] s.sub \in {"esc", "fesc"} -> "n" \o s.q
            [] s.sub = "fopen" -> "{" \o s.q
            [] s.sub = "fclose" -> "}" \o s.q
            [] s.sub = "fsopen" -> "1}"
            [] s.sub = "t0" -> s.q \o s.q \o s.q
            [] s.sub = "t1" -> s.q \o s.q
            [] s.sub = "t2" -> s.q
            [] s.sub = "tesc" -> "n" \o s.q \o s.q \o s.q
            [] s.sub \in {"comment", "join"} -> "\n"
            [] OTHER -> "")
         \o Closing(s.stk) \o (IF s.m = "braced" THEN "}" ELSE "")

Init == \E w \in Beginnings : text = w /\ rest = w /\ left = Bound /\ st = Start

ReadOn == /\ rest # ""
          /\ st' = Step(st, SubSeq(rest, 1, 1))
          /\ rest' = SubSeq(rest, 2, Len(rest))
          /\ UNCHANGED <<text, left>>

Extend == \E w \in Alphabet :
            /\ rest = ""
            /\ st.m \notin {"error", "unknown"}
            /\ left > 0
            /\ text' = text \o w
            /\ rest' = w
            /\ left' = left - 1
            /\ UNCHANGED st

Next == ReadOn \/ Extend
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* nothing is lost, invented or moved: the segments are the text
Rest(s) == SubSeq(s, 2, Len(s))
RECURSIVE Source(_)
\* the text without its dollar signs and the braces of ${}
RECURSIVE Strip(_)
Strip(w) == IF w = "" THEN "" ELSE (IF SubSeq(w, 1, 1) \in {"$", "{", "}"} THEN "" ELSE SubSeq(w, 1, 1)) \o Strip(SubSeq(w, 2, Len(w)))
Source(segs) == IF segs = << >> THEN "" ELSE Head(segs).s \o Source(Rest(segs))
Lossless == rest = "" => LET f == Finish(st) IN f.m \in {"error", "unknown"} \/ Strip(Source(f.segs)) = Strip(text)

\* literal text between interpolations is maximal
Maximal == rest = "" => LET f == Finish(st) IN
    \A j \in DOMAIN f.segs : /\ f.segs[j].k = "t" => f.segs[j].s # ""
                             /\ (j > 1 /\ f.segs[j].k = "t") => f.segs[j - 1].k = "e"

\* what ends an interpolation ends it
Completes == rest = "" /\ st.m # "error" => Finish(Read(st, Completion(st))).m # "error"

\* an error cannot be repaired by more text
Final == [][st.m = "error" => st'.m = "error"]_vars

Out(w, f) == f.m = "unknown" \/ PrintT("SC " \o ToJson([w |-> w, e |-> f.m = "error", s |-> f.segs]))
Emit == rest = "" =>
        /\ Out(text, Finish(st))
        /\ LET c == Completion(st) \o Suffix
           IN (Suffix # "" /\ st.m # "error") => Out(text \o c, Finish(Read(st, c)))
=============================================================================
