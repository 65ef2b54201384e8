------------------------------- MODULE Buffer -------------------------------
(* Output buffers (property C13).

   The state is the content of each buffer, as the items output so far.  An
   operation outputs items one after the other; converting an item to a string
   can fail, output something itself (an object whose __str__ uses a buffer)
   or give another string each time.  TLC enumerates the operation sequences
   over alphabets up to a bound, and runs long ones given from outside; for
   each it prints, after every operation, the outcome and all contents.  Both
   implementations must show the same. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.BU_PARAMS)
\* operations [o, b, items: sequence of objects, names: of objects]
\* objects [k, s: string form, e: escaped form, b: buffer]
Alphabet == {Params.alphabet[j] : j \in DOMAIN Params.alphabet}
Given == {Params.given[j] : j \in DOMAIN Params.given}
Bound == Params.bound
NB == Params.buffers

VARIABLES buf,      \* contents: a sequence of strings for each buffer
          count,    \* how often a counting object was converted
          obs,      \* the observations so far
          ops, rest, left
vars == <<buf, count, obs, ops, rest, left>>

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Str(_)
Str(k) == IF k < 10 THEN Digits[k + 1] ELSE Str(k \div 10) \o Digits[(k % 10) + 1]
Join(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)

\* st = [buf, count, err]: what output and conversion do
Add(st, b, s) == [st EXCEPT !.buf[b] = Append(@, s)]

\* converting an object; the string is in st.s
Convert(st, x) ==
  CASE x.k \in {"str", "sub", "obj", "none", "true", "false", "html", "failhtml", "markup"} -> [st EXCEPT !.s = x.s]
    [] x.k = "fail" -> [st EXCEPT !.err = x.s]
    [] x.k = "count" -> [st EXCEPT !.count = @ + 1, !.s = x.s \o Str(st.count + 1)]
    \* outputs to a buffer when it is converted
    [] x.k = "re" -> [Add(st, x.b, "(" \o x.s) EXCEPT !.s = x.s]
    \* outputs to a buffer and then fails
    [] x.k = "refail" -> [Add(st, x.b, "(" \o x.s) EXCEPT !.err = x.s]
    [] x.k = "buf" -> [st EXCEPT !.s = Join(st.buf[x.b])]

EscapeObj(st, x) ==
  CASE x.k = "failhtml" -> [st EXCEPT !.err = x.s]
    [] x.k = "buf" -> [st EXCEPT !.s = Join(st.buf[x.b])]
    [] x.k \in {"str", "sub", "obj", "html", "markup"} -> [st EXCEPT !.s = x.e]
    [] OTHER -> Convert(st, x)      \* nothing to escape in their strings

Out1(st, b, x) ==
  IF st.err # "" THEN st
  ELSE IF x.k = "buf" THEN [st EXCEPT !.buf[b] = @ \o st.buf[x.b]]
  ELSE LET r == Convert(st, x) IN IF r.err # "" THEN r ELSE Add(r, b, r.s)
Out(st, b, xs) == FoldLeft(LAMBDA a, x : Out1(a, b, x), st, xs)

Plain(s) == [k |-> "str", s |-> s, e |-> s, b |-> 0]

Attr(st, b, name, x) ==
  IF st.err # "" \/ x.k \in {"none", "false"} THEN st
  ELSE IF x.k = "true" THEN Out(st, b, <<Plain(" "), name, Plain("=\""), name, Plain("\"")>>)
  ELSE LET r == EscapeObj(st, x)
       IN IF r.err # "" THEN r ELSE Out(r, b, <<Plain(" "), name, Plain("=\""), Plain(r.s), Plain("\"")>>)

S0 == [buf |-> buf, count |-> count, s |-> "", err |-> ""]
NewBuf(st) == [st EXCEPT !.buf = Append(@, << >>)]

\* an attribute for each pair, collected in a buffer of their own
Attrs(st, b, names, xs) ==
  LET t == Len(st.buf) + 1
      r == FoldLeft(LAMBDA a, j : Attr(a, t, names[j], xs[j]), NewBuf(st), [j \in DOMAIN xs |-> j])
      u == IF r.err # "" \/ xs = << >> THEN r ELSE [r EXCEPT !.buf[b] = @ \o r.buf[t]]
  IN [u EXCEPT !.buf = SubSeq(@, 1, Len(st.buf))]

Result(op) ==
  CASE op.o = "call" -> Out(S0, op.b, op.items)
    [] op.o = "attr" -> Attr(S0, op.b, op.names[1], op.items[1])
    [] op.o = "attrs" -> Attrs(S0, op.b, op.names, op.items)
    [] op.o \in {"join", "str", "format", "escape"} -> [S0 EXCEPT !.s = Join(buf[op.b])]
    [] op.o = "html" -> S0          \* the buffer itself
    [] op.o = "new" -> [S0 EXCEPT !.buf[op.b] = << >>]
    \* calls that are wrong
    [] op.o = "kwargs" -> [S0 EXCEPT !.err = "TypeError"]
    [] op.o = "attr1" -> [S0 EXCEPT !.err = "TypeError"]
    [] op.o = "attr3" -> [S0 EXCEPT !.err = "TypeError"]
    [] op.o = "join1" -> [S0 EXCEPT !.err = "TypeError"]

Reads(op) == op.o \in {"join", "str", "format", "escape"}

Do(op) == LET r == Result(op) IN
  /\ buf' = r.buf
  /\ count' = r.count
  /\ obs' = Append(obs, [e |-> r.err, r |-> IF Reads(op) THEN r.s ELSE "", c |-> [b \in 1..NB |-> Join(r.buf[b])]])
  /\ ops' = Append(ops, op)

Init == /\ buf = [b \in 1..NB |-> << >>] /\ count = 0 /\ obs = << >> /\ ops = << >>
        /\ rest \in Given /\ left = Bound

ReadOn == rest # << >> /\ Do(Head(rest)) /\ rest' = Tail(rest) /\ left' = left
Extend == \E op \in Alphabet : rest = << >> /\ left > 0 /\ Do(op) /\ left' = left - 1 /\ UNCHANGED rest

Next == ReadOn \/ Extend
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* output is only ever appended, except that a buffer is replaced by a new one
Appended == [][\A b \in 1..NB :
                 \/ Len(buf'[b]) >= Len(buf[b]) /\ SubSeq(buf'[b], 1, Len(buf[b])) = buf[b]
                 \/ Last(ops').o = "new" /\ Last(ops').b = b]_vars

\* reading, and wrong calls, change nothing
Harmless == [][(Reads(Last(ops')) \/ Last(ops').o \in {"html", "kwargs", "attr1", "attr3", "join1"}) => buf' = buf]_vars

\* a failing operation outputs no more than the same one without the objects that fail
Emit == (rest = << >> /\ (left = 0 \/ Given # {<< >>})) => PrintT("BU " \o ToJson([ops |-> ops, obs |-> obs]))
=============================================================================
