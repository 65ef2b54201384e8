------------------------------- MODULE Faults -------------------------------
(* Malformed templates (property C14).

   A template is written piece by piece.  The state is the text written so
   far, the line it has come to, what is open (elements, a start tag), and the
   line ranges of the offending constructs written.  TLC enumerates the
   templates over alphabets of valid and faulty pieces up to a bound, and with
   the same transitions writes long templates given from outside; for each it
   prints the text and the ranges: the real loader must accept the template
   exactly if there are none, and otherwise locate the error in one of them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.FA_PARAMS)
\* [t, src, nl: newlines in src, ok: contexts it is valid in,
\*  bad: contexts it is a fault in, with lines relative to its first one,
\*  n: name of the element or attribute, inner: context inside, el: an element]
Alphabet == {Params.alphabet[j] : j \in DOMAIN Params.alphabet}
Given == {Params.given[j] : j \in DOMAIN Params.given}
Bound == Params.bound
MaxFaults == Params.maxfaults

VARIABLES src, line,
          stk,      \* open elements
          tag,      \* start tag being written, or << >>
          seen,     \* a root element was written
          faults,   \* ranges of lines
          stop,     \* the parser gets no further than this
          n, rest, left
st == <<src, line, stk, tag, seen, faults, stop>>
vars == <<st, n, rest, left>>

Has(q, x) == \E i \in DOMAIN q : q[i] = x
Context == IF tag # << >> THEN "tag"
           ELSE IF stk # << >> THEN Last(stk).inner
           ELSE IF seen THEN "epi" ELSE "pro"

BadIn(p, c) == SelectSeq(p.bad, LAMBDA b : b.c = c)
Ranges(p, c) == LET q == BadIn(p, c) IN [i \in DOMAIN q |-> <<line + q[i].lo, line + q[i].hi>>]
Faulty(p) == BadIn(p, Context) # << >>

Write(s, k) == src' = src \o s /\ line' = line + k
Elem(name, inner, at, nc) == [n |-> name, inner |-> inner, at |-> at, nc |-> nc]

\* control attributes in the order they nest; only blocks and functions may be
\* directly in an extending element
Order == <<"py:block", "py:if", "py:unless", "py:for", "py:def", "py:with">>
Controls(names) == SelectSeq(Order, LAMBDA x : Has(names, x))
Definition(names) == Controls(names) # << >> /\ Head(Controls(names)) \in {"py:block", "py:def"}

Leaf(p) == /\ p.t = "leaf"
           /\ \/ Has(p.ok, Context) \/ Faulty(p)
           /\ Write(p.src, p.nl)
           /\ faults' = faults \o Ranges(p, Context)
           /\ seen' = (seen \/ p.el)
           /\ UNCHANGED <<stk, tag, stop>>

\* an element whose start tag is in one piece
Open(p) == /\ p.t \in {"open", "noclose"}
           /\ \/ Has(p.ok, Context) \/ Faulty(p)
           /\ Write(p.src, p.nl)
           /\ faults' = faults \o Ranges(p, Context)
           /\ seen' = TRUE
           /\ stk' = Append(stk, Elem(p.n, p.inner, line, p.t = "noclose"))
           /\ UNCHANGED <<tag, stop>>

\* a start tag, its attributes and its end
Tag(p) == /\ p.t = "tag"
          /\ Context \in {"pro", "epi", "flow", "ext"}
          /\ Write(p.src, p.nl)
          /\ tag' = <<[n |-> p.n, at |-> line, names |-> << >>, ctx |-> Context]>>
          /\ faults' = IF Context = "epi" THEN Append(faults, <<line, line>>) ELSE faults
          /\ seen' = TRUE
          /\ UNCHANGED <<stk, stop>>

Attr(p) == /\ p.t = "attr" /\ Context = "tag"
           /\ ~Has(tag[1].names, p.n)
           \* where the content or the element is replaced, there is nothing else to look at
           /\ Write(p.src, p.nl)
           /\ tag' = <<[tag[1] EXCEPT !.names = Append(@, p.n)]>>
           /\ faults' = faults \o Ranges(p, "tag")
           /\ UNCHANGED <<stk, seen, stop>>

TagEnd(p) == /\ p.t = "tagend" /\ Context = "tag"
             /\ Write(p.src, p.nl)
             /\ tag' = << >>
             /\ LET g == tag[1] IN
                /\ stk' = IF p.n = "/" THEN stk ELSE Append(stk, Elem(g.n, "flow", g.at, FALSE))
                /\ faults' = IF g.ctx = "ext" /\ ~Definition(g.names) THEN Append(faults, <<g.at, line + p.nl>>) ELSE faults
             /\ UNCHANGED <<seen, stop>>

\* closes the innermost element that is not one left open
Close(p) == /\ p.t = "close" /\ tag = << >>
            /\ \E j \in DOMAIN stk :
                 /\ ~stk[j].nc /\ \A i \in (j + 1)..Len(stk) : stk[i].nc
                 /\ Write("</" \o stk[j].n \o p.src, p.nl)
                 /\ faults' = IF j = Len(stk) THEN faults
                              ELSE faults \o <<<<stk[j].at, stk[j].at>>, <<Last(stk).at, Last(stk).at>>, <<line, line + p.nl>>>>
                 /\ stk' = SubSeq(stk, 1, j - 1)
                 /\ stop' = (stop \/ j < Len(stk))
            /\ UNCHANGED <<tag, seen>>

\* an end tag that matches nothing
Wrong(p) == /\ p.t = "wrong" /\ tag = << >>
            /\ Write(p.src, p.nl)
            /\ faults' = (IF stk = << >> THEN faults ELSE Append(faults, <<Last(stk).at, Last(stk).at>>)) \o <<<<line, line + p.nl>>>>
            /\ stop' = TRUE
            /\ UNCHANGED <<stk, tag, seen>>

Put(p) == Leaf(p) \/ Open(p) \/ Tag(p) \/ Attr(p) \/ TagEnd(p) \/ Close(p) \/ Wrong(p)

Init == /\ src = "" /\ line = 1 /\ stk = << >> /\ tag = << >> /\ seen = FALSE /\ faults = << >> /\ stop = FALSE
        /\ n = 0
        /\ rest \in Given /\ left = Bound

\* given pieces that have no place here are left out
ReadOn == /\ rest # << >>
          /\ rest' = Tail(rest) /\ left' = left
          /\ IF ~stop /\ ENABLED Put(Head(rest)) THEN Put(Head(rest)) /\ n' = n + 1 ELSE UNCHANGED <<st, n>>

Extend == /\ rest = << >> /\ left > 0 /\ ~stop
          /\ \E p \in Alphabet : Put(p)
          /\ Len(faults') <= MaxFaults \/ Len(faults) = 0
          /\ left' = left - 1 /\ n' = n + 1
          /\ UNCHANGED rest

Next == ReadOn \/ Extend
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every fault is somewhere in the text
Located == \A i \in DOMAIN faults : 1 <= faults[i][1] /\ faults[i][1] <= faults[i][2] /\ faults[i][2] <= line
Lines == line = 1 + Cardinality({i \in 1..Len(src) : SubSeq(src, i, i) = "\n"})

\* what was written stays, and a fault is not repaired by what follows
Stays == [][SubSeq(src', 1, Len(src)) = src /\ SubSeq(faults', 1, Len(faults)) = faults /\ line' >= line]_vars

\* a text with an element left open is refused when another one is closed
Refused == stop => faults # << >>

Emit == (rest = << >> /\ tag = << >>) => PrintT("FA " \o ToJson([s |-> src, f |-> faults, l |-> line]))
=============================================================================
