------------------------------ MODULE Extract ------------------------------
(* Extraction of messages (property C17), over the executions of TkMachine.

   Messages(f) is what the extraction of file f has to give: the static texts
   and attributes that are subject to translation, wherever they are in the
   file and whether or not anything ever renders them, and the constant
   messages of gettext() calls in interpolated expressions.  It is defined on
   the syntax alone.

   TLC checks on every execution of every program that what is looked up is
   among the messages of its files (Covered), and compares what was extracted
   from each file with Messages. *)
EXTENDS TkMachine

\* what an element is replaced with is all there is of it
RECURSIVE Reach(_)
Reach(n) == {n} \cup
  (IF Nd(n).k # "el" \/ Nd(n).replace # 0 \/ Nd(n).content # 0 THEN {}
   ELSE UNION {Reach(Nd(n).ch[j]) : j \in DOMAIN Nd(n).ch})
FileNodes(f) == UNION {Reach(P.files[f].root[j]) : j \in DOMAIN P.files[f].root}

\* the part lists of a node, each with whether it can be translated
PartLists(n) ==
  CASE Nd(n).k = "text" -> {[ps |-> Nd(n).parts, notr |-> Nd(n).notr]}
    [] Nd(n).k = "el" /\ Nd(n).replace = 0 ->
         {[ps |-> Nd(n).attrs[a].parts, notr |-> Nd(n).attrs[a].notr] : a \in DOMAIN Nd(n).attrs}
    [] OTHER -> {}

Body(s) == LStrip(RStrip(s))
Static1(pl) == IF pl.notr THEN {}
  ELSE {Body(pl.ps[j].s) : j \in {j \in DOMAIN pl.ps : pl.ps[j].k = "s"}} \ {""}
Dynamic1(pl) == {pl.ps[j].e : j \in {j \in DOMAIN pl.ps : pl.ps[j].k = "e"}}

Texts(f) == UNION {UNION {Static1(pl) : pl \in PartLists(n)} : n \in FileNodes(f)}

\* the expressions whose values are output
Interpolated(f) == UNION {UNION {Dynamic1(pl) : pl \in PartLists(n)} \cup
    (IF Nd(n).k = "el" THEN IF Nd(n).replace # 0 THEN {Nd(n).replace}
                            ELSE {Nd(n).content} \ {0} ELSE {}) : n \in FileNodes(f)}

\* the other expressions of a node
ItemExprs(c) == CASE c.k \in {"if", "unless", "for"} -> {c.e}
                  [] c.k = "with" -> {c.as[j].e : j \in DOMAIN c.as}
                  [] c.k = "def" -> {c.ps[j].d : j \in DOMAIN c.ps} \ {0}
                  [] OTHER -> {}
OtherExprs(f) == UNION {
  CASE Nd(n).k = "code" -> {Nd(n).as[j].e : j \in DOMAIN Nd(n).as}
    [] Nd(n).k = "el" -> UNION {ItemExprs(Ctl(n)[i]) : i \in DOMAIN Ctl(n)}
                           \cup ({Nd(n).strip, Nd(n).pyattrs} \ {0})
    [] OTHER -> {} : n \in FileNodes(f)}

Kids(e) ==
  LET x == Ex(e) IN
  CASE x.k \in {"c", "v"} -> {}
    [] x.k = "call" -> {x.f} \cup ToSet(x.a) \cup {x.kw[j].e : j \in DOMAIN x.kw}
    [] x.k \in {"attr", "lit", "not"} -> {x.e}
    [] x.k \in {"cat", "eq", "lt", "and", "or"} -> {x.a, x.b}
    [] x.k = "cond" -> {x.c, x.a, x.b}
    [] x.k = "list" -> ToSet(x.es)
    [] x.k = "dict" -> {x.ps[j].e : j \in DOMAIN x.ps}
    [] x.k = "idx" -> {x.e, x.i}
    [] x.k = "comp" -> {x.it, x.b}
    [] x.k = "lam" -> {x.b}
RECURSIVE Within(_)
Within(e) == {e} \cup UNION {Within(x) : x \in Kids(e)}

IsLookup(e) == Ex(e).k = "call" /\ Ex(Ex(e).f).k = "v" /\ Ex(Ex(e).f).n = "gettext"
IsStr(e) == Ex(e).k = "c" /\ Ex(e).v.t = "str"
IsConstLookup(e) == IsLookup(e) /\ Len(Ex(e).a) = 1 /\ IsStr(Ex(e).a[1])

Lookups(es) == {x \in UNION {Within(e) : e \in es} : IsLookup(x)}

\* the other kinds of lookup: a singular and a plural form, a message within a
\* context, a message of a domain; a message has the form Zn:singular:plural,
\* Zp:context:message or just message
Kind(e) == IF Ex(e).k = "call" /\ Ex(Ex(e).f).k = "v" THEN Ex(Ex(e).f).n ELSE ""
IsKind(e) == /\ Kind(e) \in {"ngettext", "pgettext", "dgettext"}
             /\ Len(Ex(e).a) = (IF Kind(e) = "ngettext" THEN 3 ELSE 2)
             /\ IsStr(Ex(e).a[1]) /\ IsStr(Ex(e).a[2])
KindMessage(e) ==
  LET a == Ex(Ex(e).a[1]).v.s
      b == Ex(Ex(e).a[2]).v.s IN
  CASE Kind(e) = "ngettext" -> "Zn:" \o a \o ":" \o b
    [] Kind(e) = "pgettext" -> "Zp:" \o a \o ":" \o b
    [] Kind(e) = "dgettext" -> b

ConstMessages(es) == {Ex(Ex(x).a[1]).v.s : x \in {x \in Lookups(es) : IsConstLookup(x)}} \cup
                     {KindMessage(x) : x \in {x \in UNION {Within(e) : e \in es} : IsKind(x)}}

\* what has to be extracted
Messages(f) == Texts(f) \cup ConstMessages(Interpolated(f))

\* a lookup of one of several constants; expressions that are not output
RECURSIVE OneOf(_)
OneOf(e) == CASE IsStr(e) -> {Ex(e).v.s}
                [] Ex(e).k \in {"and", "or", "cond"} -> OneOf(Ex(e).a) \cup OneOf(Ex(e).b)
                [] OTHER -> {}
\* what may be
Allowed(f) == Messages(f) \cup ConstMessages(OtherExprs(f)) \cup
  UNION {UNION {OneOf(Ex(x).a[j]) : j \in DOMAIN Ex(x).a} : x \in Lookups(Interpolated(f) \cup OtherExprs(f))}

\* every lookup is by a constant in an expression that is output
Strict == \A f \in DOMAIN P.files :
  /\ \A x \in Lookups(Interpolated(f)) : IsConstLookup(x)
  /\ Lookups(OtherExprs(f)) = {}

AllMessages == UNION {Messages(f) : f \in DOMAIN P.files}
IsEntry(x) == SubSeq(x, 1, 2) = "t:"
MessageOf(x) == SubSeq(x, 3, Len(x))

\* one step adds one entry at the most
Covered == (log # << >> /\ IsEntry(log[Len(log)]) /\ Strict)
              => MessageOf(log[Len(log)]) \in AllMessages

-----------------------------------------------------------------------------
Got(f) == ToSet(P.extracted[f])
ExtractionVerdict(f) ==
  CASE ~(Messages(f) \subseteq Got(f)) -> "missed"
    [] ~(Got(f) \subseteq Allowed(f)) -> "invented"
    [] OTHER -> "ok"

\* after the verdict on the rendering, one on each file
JudgeExtraction ==
  /\ stat = "end"
  /\ LET bad == SelectSeq([f \in DOMAIN P.files |-> f], LAMBDA f : ExtractionVerdict(f) # "ok") IN
     PrintT(<<"X", P.id, IF bad = << >> THEN "ok" ELSE ExtractionVerdict(bad[1]),
              IF bad = << >> THEN ToString(IF Strict THEN 1 ELSE 0)
              ELSE ToJson([file |-> P.files[bad[1]].name, messages |-> SetToSeq(Messages(bad[1])),
                           extracted |-> P.extracted[bad[1]]])>>)
  /\ stat' = "judged"
  /\ UNCHANGED <<pid, work, vals, fr, insts, ctxs, bufs, log, err>>
ExtractEnded == stat = "judged" /\ UNCHANGED vars
ExtractSpec == Init /\ [][Next \/ JudgeExtraction \/ ExtractEnded]_vars
=============================================================================
