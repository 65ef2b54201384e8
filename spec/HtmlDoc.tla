------------------------------- MODULE HtmlDoc -------------------------------
(* Static documents (property C02): what a template without interpolation or
   control syntax renders, and which event sequences are no document.

   A document is a sequence of events.  The state is the stack of open
   elements and the output.  TLC enumerates the sequences over an alphabet of
   events up to a bound and, with the same transitions, reads sequences given
   from outside; for each it prints whether it is a document and what it
   renders.  Events carry values, not source text: how text is written (entities,
   quotes, case, white space in tags) is the business of the replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.HD_PARAMS)
Alphabet == {Params.alphabet[j] : j \in DOMAIN Params.alphabet}
Given == {Params.given[j] : j \in DOMAIN Params.given}
Bound == Params.bound

VARIABLES doc,      \* the events so far
          rest,     \* events not read yet
          left,     \* how many more may be added
          stk, out, seen, dt, status
st == <<stk, out, seen, dt, status>>
vars == <<doc, rest, left, st>>

Void == {"area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source",
         "track", "wbr"}

Idx(n) == [i \in 1..n |-> i]
Ch(s, i) == SubSeq(s, i, i)
EscCh(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "\"" -> "&#34;"
              [] c = "'" -> "&#39;" [] OTHER -> c
Escape(s) == FoldLeft(LAMBDA a, i : a \o EscCh(Ch(s, i)), "", Idx(Len(s)))
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) \in {" ", "\n", "\t", "\r"}

\* a: sequence of [n |-> name, v |-> value, b |-> without value]
Attrs(a) == FoldLeft(LAMBDA o, x : IF x.n \in {"xmlns:py"} THEN o
                                   ELSE IF x.b THEN o \o " " \o x.n
                                   ELSE o \o " " \o x.n \o "=\"" \o Escape(x.v) \o "\"", "", a)

Reject == status' = "error" /\ stk' = << >> /\ out' = "" /\ UNCHANGED <<seen, dt>>
Same == UNCHANGED <<status, seen, dt>>

TopLevel == stk = << >>
SecondRoot == TopLevel /\ seen

StartTag(e) ==
    IF SecondRoot THEN Reject
    ELSE /\ seen' = TRUE
         /\ UNCHANGED <<status, dt>>
         /\ IF e.n \in Void THEN stk' = stk /\ out' = out \o "<" \o e.n \o Attrs(e.a) \o " />"
            ELSE stk' = Append(stk, e.n) /\ out' = out \o "<" \o e.n \o Attrs(e.a) \o ">"

SelfClosed(e) ==
    IF SecondRoot THEN Reject
    ELSE /\ seen' = TRUE
         /\ UNCHANGED <<status, dt, stk>>
         /\ out' = out \o "<" \o e.n \o Attrs(e.a) \o (IF e.n \in Void THEN " />" ELSE "></" \o e.n \o ">")

EndTag(e) ==
    IF stk = << >> \/ Last(stk) # e.n THEN Reject
    ELSE stk' = Front(stk) /\ out' = out \o "</" \o e.n \o ">" /\ Same

Text(e) ==
    IF ~TopLevel THEN stk' = stk /\ out' = out \o Escape(e.s) /\ Same
    ELSE IF Blank(e.s) THEN UNCHANGED st
    ELSE Reject

\* script and style
RawElement(e) ==
    IF SecondRoot THEN Reject
    ELSE /\ seen' = TRUE
         /\ UNCHANGED <<status, dt, stk>>
         /\ out' = out \o "<" \o e.n \o Attrs(e.a) \o ">" \o e.s \o "</" \o e.n \o ">"

Comment(e) == out' = out \o "<!--" \o e.s \o "-->" /\ stk' = stk /\ Same
Hidden(e) == UNCHANGED st

Doctype(e) ==
    IF ~TopLevel THEN Reject
    ELSE out' = out \o "<!DOCTYPE " \o e.s \o ">" /\ dt' = TRUE /\ UNCHANGED <<stk, status, seen>>

Read(e) == CASE e.k = "start" -> StartTag(e)
             [] e.k = "self" -> SelfClosed(e)
             [] e.k = "end" -> EndTag(e)
             [] e.k = "text" -> Text(e)
             [] e.k = "raw" -> RawElement(e)
             [] e.k = "comment" -> Comment(e)
             [] e.k = "hidden" -> Hidden(e)
             [] e.k = "doctype" -> Doctype(e)

\* a second document type, and one after the root element, are left open
Sensible(e) == (e.k = "doctype" /\ TopLevel) => (~seen /\ ~dt)

Init == \E d \in Given : /\ doc = d /\ rest = d /\ left = Bound
                         /\ stk = << >> /\ out = "" /\ seen = FALSE /\ dt = FALSE /\ status = "ok"

ReadOn == /\ rest # << >> /\ status = "ok"
          /\ Read(Head(rest))
          /\ rest' = Tail(rest)
          /\ UNCHANGED <<doc, left>>

Extend == \E e \in Alphabet :
            /\ rest = << >> /\ status = "ok" /\ left > 0
            /\ Sensible(e)
            /\ doc' = Append(doc, e)
            /\ rest' = <<e>>
            /\ left' = left - 1
            /\ UNCHANGED st

Next == ReadOn \/ Extend
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Closing(_)
Closing(q) == IF q = << >> THEN "" ELSE "</" \o Last(q) \o ">" \o Closing(Front(q))
Result == out \o Closing(stk)

\* an element is closed only by its own end tag, or the end of the file
OpenTags == SelectSeq(doc, LAMBDA e : e.k = "start" /\ e.n \notin Void)
EndTags == SelectSeq(doc, LAMBDA e : e.k = "end")
Balanced == (status = "ok" /\ rest = << >>) => Len(OpenTags) - Len(EndTags) = Len(stk)

\* one element at top level
OneRoot == status = "ok" /\ stk # << >> => seen

\* nothing that was output is changed by what follows
Monotone == [][status' = "ok" => SubSeq(out', 1, Len(out)) = out]_vars

\* a sequence that is no document does not become one
Final == [][status = "error" => status' = "error"]_vars

Done == status = "error" \/ rest = << >>
Emit == Done => PrintT("HD " \o ToJson([d |-> doc, e |-> status = "error", o |-> IF status = "error" THEN "" ELSE Result]))
=============================================================================
