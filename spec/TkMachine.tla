------------------------------ MODULE TkMachine ------------------------------
(***************************************************************************)
(* Rendering of Tonnikala templates as a state machine.                    *)
(*                                                                         *)
(* A program is a set of template files given as abstract syntax (node and *)
(* expression tables), a rendering context and an entry point.  The        *)
(* machine binds the chain of templates, then executes one work item per   *)
(* step.  Its observable results are the output (a sequence of chunks,     *)
(* each tagged with its origin), the log of calls made to the functions of *)
(* the context (in order), and the exception with its traceback.           *)
(*                                                                         *)
(* Every action is one rule of the documented template language; nothing   *)
(* here follows the code generator (no merging, hoisting of constants, or  *)
(* flattening): the implementation has to be indistinguishable from this.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.TK_PROGS)

VARIABLES
  pid,     \* the program being rendered
  work,    \* stack of work items, top first
  vals,    \* stack of intermediate values, top first
  fr,      \* heap of variable frames
  insts,   \* bound template instances
  ctxs,    \* contexts: name -> value
  bufs,    \* stack of output buffers (sequences of chunks), top last
  log,     \* calls of probes and gettext, in order
  stat,    \* "bind", "run", "done", "err", "undef" or "end"
  err      \* the exception, its line, the interrupted work

heap == <<fr, insts, ctxs>>
vars == <<pid, work, vals, fr, insts, ctxs, bufs, log, stat, err>>

P == Progs[pid]
Nd(n) == P.nodes[n]
Ex(e) == P.exprs[e]
Js == P.target = "js"

-----------------------------------------------------------------------------
(* Strings *)

Ch(s, i) == SubSeq(s, i, i)

EscCh(c) == CASE c = "&" -> "&amp;"
              [] c = "<" -> "&lt;"
              [] c = ">" -> "&gt;"
              [] c = "\"" -> "&#34;"
              [] c = "'" -> "&#39;"
              [] OTHER -> c

Idx(n) == [i \in 1..n |-> i]
Escape(s) == FoldLeft(LAMBDA a, i : a \o EscCh(Ch(s, i)), "", Idx(Len(s)))
JoinS(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
OutStr(chunks) == FoldLeft(LAMBDA a, c : a \o c.s, "", chunks)

\* white space, in the sense of Unicode: the characters that a specification
\* in ASCII cannot contain come with the programs
IsWs(c) == c \in {" ", "\n", "\t", "\r", "\f"} \/ (~Js /\ c \in ToSet(P.ws))
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # "" /\ IsWs(Ch(s, 1)) THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RStrip(s) == IF s # "" /\ IsWs(Ch(s, Len(s)))
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s

-----------------------------------------------------------------------------
(* Values *)

VStr(s) == [t |-> "str", s |-> s]
VMk(s) == [t |-> "mk", s |-> s]
VInt(i) == [t |-> "int", n |-> i]
VBool(b) == [t |-> "bool", b |-> b]
VNone == [t |-> "none"]

\* values whose string form is part of the model
Strable(v) == v.t \in {"str", "mk", "int", "bool", "none", "html", "obj", "res"}

Str(v) == CASE v.t \in {"str", "mk"} -> v.s
            [] v.t = "int" -> ToString(v.n)
            [] v.t = "bool" -> IF Js THEN (IF v.b THEN "true" ELSE "false")
                                     ELSE (IF v.b THEN "True" ELSE "False")
            [] v.t = "none" -> IF Js THEN "null" ELSE "None"
            [] v.t \in {"html", "obj"} -> v.s
            [] v.t = "res" -> OutStr(v.ch)

Truthy(v) == CASE v.t = "str" -> v.s # ""
               [] v.t = "mk" -> Js \/ v.s # ""
               [] v.t = "int" -> v.n # 0
               [] v.t = "bool" -> v.b
               [] v.t \in {"none", "undef"} -> FALSE
               [] v.t = "list" -> IF Js THEN TRUE ELSE Len(v.v) > 0
               [] v.t = "dict" -> IF Js THEN TRUE ELSE Len(v.v) > 0
               [] OTHER -> TRUE

\* what a value contributes to the output, escaped exactly once unless it is
\* markup already
Chunk(k, s, o) == [k |-> k, s |-> s, o |-> o]
Lit(s) == Chunk("lit", s, s)
Static(s) == Chunk("esc", Escape(s), s)
OutChunks(v) == CASE v.t = "mk" -> <<Chunk("mk", v.s, v.s)>>
                  [] v.t = "html" -> <<Chunk("mk", v.r, v.r)>>
                  [] v.t = "res" -> v.ch
                  [] OTHER -> <<Chunk("esc", Escape(Str(v)), Str(v))>>

\* one attribute given by name and value
AttrChunks(name, v) ==
  IF v.t = "none" \/ (v.t = "bool" /\ ~v.b) THEN <<>>
  ELSE IF v.t = "bool" THEN <<Lit(" " \o name \o "=\"" \o name \o "\"")>>
  ELSE <<Lit(" " \o name \o "=\"")>> \o OutChunks(v) \o <<Lit("\"")>>

-----------------------------------------------------------------------------
(* Static structure of templates *)

\* the documented nesting order of control attributes on one element
CtlOrder == <<"block", "if", "unless", "for", "def", "with">>

Ordered(nd) == FoldLeft(LAMBDA a, k : a \o SelectSeq(nd.ctl, LAMBDA c : c.k = k),
                        nd.own, CtlOrder)
CtlTab == [q \in DOMAIN Progs |-> [n \in DOMAIN Progs[q].nodes |->
             IF Progs[q].nodes[n].k = "el" THEN Ordered(Progs[q].nodes[n]) ELSE <<>>]]
Ctl(n) == CtlTab[pid][n]

\* constant conditions are decided at compile time
RECURSIVE IsConst(_), ConstVal(_)
IsConst(e) == CASE Ex(e).k = "c" -> TRUE
                [] Ex(e).k = "not" -> IsConst(Ex(e).e)
                [] Ex(e).k = "list" -> \A i \in DOMAIN Ex(e).es : Ex(Ex(e).es[i]).k = "c"
                [] Ex(e).k = "dict" -> \A i \in DOMAIN Ex(e).ps : Ex(Ex(e).ps[i].e).k = "c"
                [] OTHER -> FALSE
ConstVal(e) == CASE Ex(e).k = "c" -> Truthy(Ex(e).v)
                 [] Ex(e).k = "not" -> ~ConstVal(Ex(e).e)
                 [] Ex(e).k = "list" -> Len(Ex(e).es) > 0
                 [] Ex(e).k = "dict" -> Len(Ex(e).ps) > 0

CondConst(c) == ~Js /\ IsConst(c.e)
CondTaken(c) == IF c.k = "if" THEN ConstVal(c.e) ELSE ~ConstVal(c.e)

Concat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)

\* blocks, top-level functions and top-level imports below a node, inner first
RECURSIVE Items(_, _, _)
Items(n, i, top) ==
  IF Nd(n).k = "imp" THEN IF top THEN <<[k |-> "imp", n |-> n, i |-> 0]>> ELSE <<>>
  ELSE IF Nd(n).k # "el" THEN <<>>
  ELSE LET c == Ctl(n) IN
    IF i <= Len(c) THEN
      CASE c[i].k \in {"if", "unless"} ->
             IF CondConst(c[i])
             THEN Items(n, i + 1, top /\ CondTaken(c[i]))
             ELSE Items(n, i + 1, FALSE)
        [] c[i].k \in {"for", "with"} -> Items(n, i + 1, FALSE)
        [] c[i].k = "block" ->
             Append(Items(n, i + 1, FALSE), [k |-> "block", n |-> n, i |-> i])
        [] c[i].k = "def" ->
             Items(n, i + 1, FALSE) \o
               (IF top THEN <<[k |-> "def", n |-> n, i |-> i]>> ELSE <<>>)
    ELSE IF Nd(n).replace # 0 \/ Nd(n).content # 0 THEN <<>>
    ELSE Concat([j \in DOMAIN Nd(n).ch |-> Items(Nd(n).ch[j], 1, top)])

FileItems(f) == Concat([j \in DOMAIN P.files[f].root |-> Items(P.files[f].root[j], 1, TRUE)])

\* variables local to the function a node is in
RECURSIVE Loc(_, _, _)
Loc(n, i, top) ==
  CASE Nd(n).k = "imp" -> IF top THEN {} ELSE {Nd(n).alias}
    [] Nd(n).k = "code" -> {Nd(n).as[j].n : j \in DOMAIN Nd(n).as}
    [] Nd(n).k = "el" ->
         LET c == Ctl(n) IN
         IF i <= Len(c) THEN
           CASE c[i].k \in {"if", "unless"} ->
                  IF CondConst(c[i])
                  THEN Loc(n, i + 1, top /\ CondTaken(c[i]))
                  ELSE Loc(n, i + 1, FALSE)
             [] c[i].k = "for" -> ToSet(c[i].ts) \cup Loc(n, i + 1, FALSE)
             [] c[i].k = "with" -> {}
             [] c[i].k = "block" -> {}
             [] c[i].k = "def" -> IF top THEN {} ELSE {c[i].name}
         ELSE IF Nd(n).replace # 0 \/ Nd(n).content # 0 THEN {}
         ELSE UNION {Loc(Nd(n).ch[j], 1, top) : j \in DOMAIN Nd(n).ch}
    [] OTHER -> {}

MainLoc(f) == UNION {Loc(P.files[f].root[j], 1, TRUE) : j \in DOMAIN P.files[f].root}

-----------------------------------------------------------------------------
(* Binding: the chain of templates of a rendering or of an import *)

\* the context given by the caller; contexts of the machine hold what templates
\* add to it
UserCtx == P.ctx

FnVal(kind, file, n, i, f, k, name, dv) ==
  [t |-> "fn", kind |-> kind, file |-> file, n |-> n, i |-> i, fr |-> f,
   inst |-> k, name |-> name, dv |-> dv]

Parent(f) == P.files[f].ext

\* st = [insts, ctxs]; adds the instances of file f and its ancestors, all
\* using context c
RECURSIVE BindChain(_, _, _), BindImports(_, _, _, _), BindDefs(_, _, _, _)
BindChain(st, f, c) ==
  LET k == Len(st.insts) + 1
      items == FileItems(f)
      imps == SelectSeq(items, LAMBDA x : x.k = "imp")
      defs == SelectSeq(items, LAMBDA x : x.k = "block")
                \o SelectSeq(items, LAMBDA x : x.k = "def")
      st0 == [st EXCEPT !.insts = Append(@, [file |-> f, ctx |-> c,
                 al |-> <<>>,
                 tops |-> {<<items[j].n, items[j].i>> : j \in DOMAIN items}])]
      st1 == BindImports(st0, k, imps, 1)
      st2 == BindDefs(st1, k, defs, 1)
  IN IF Parent(f) = 0 THEN st2 ELSE BindChain(st2, Parent(f), c)

\* an imported template sees the context as given by the caller
ImportVal(st, n) ==
  LET c == Len(st.ctxs) + 1
      st1 == BindChain([st EXCEPT !.ctxs = Append(@, <<>>)], Nd(n).href, c)
  IN [st |-> st1, v |-> [t |-> "mod", ctx |-> c]]

BindImports(st, k, imps, j) ==
  IF j > Len(imps) THEN st
  ELSE LET r == ImportVal(st, imps[j].n)
       IN BindImports([r.st EXCEPT !.insts[k].al =
                         Append(@, [n |-> Nd(imps[j].n).alias, v |-> r.v])],
                      k, imps, j + 1)

\* the first definition of a name, that is the most derived one, wins
BindDefs(st, k, defs, j) ==
  IF j > Len(defs) THEN st
  ELSE LET d == defs[j]
           c == Ctl(d.n)[d.i]
           cx == st.insts[k].ctx
           v == FnVal(d.k, st.insts[k].file, d.n, d.i, 0, k, c.name, <<>>)
       IN BindDefs(IF c.name \in DOMAIN st.ctxs[cx] \/ c.name \in DOMAIN UserCtx THEN st
                   ELSE [st EXCEPT !.ctxs[cx] = (c.name :> v) @@ @],
                   k, defs, j + 1)

\* the ancestor that has a body
RECURSIVE RootOf(_)
RootOf(f) == IF Parent(f) = 0 THEN f ELSE RootOf(Parent(f))
RECURSIVE Depth(_)
Depth(f) == IF Parent(f) = 0 THEN 0 ELSE 1 + Depth(Parent(f))

-----------------------------------------------------------------------------
(* Names *)

Builtins == {"len"}
Unbound == [t |-> "unbound"]

RootLook(k, name) ==
  LET al == SelectSeq(insts[k].al, LAMBDA a : a.n = name)
      cx == ctxs[insts[k].ctx]
  IN IF al # <<>> THEN al[Len(al)].v
     ELSE IF name \in DOMAIN UserCtx THEN UserCtx[name]
     ELSE IF name \in DOMAIN cx THEN cx[name]
     ELSE IF name \in Builtins THEN [t |-> "host", h |-> name]
     ELSE Unbound

RECURSIVE Look(_, _)
Look(f, name) ==
  IF name \in DOMAIN fr[f].vars THEN fr[f].vars[name]
  ELSE IF name \in fr[f].loc THEN Unbound
  ELSE IF fr[f].par = 0 THEN RootLook(fr[f].inst, name)
  ELSE Look(fr[f].par, name)

Frame(par, k, vs, loc) == [par |-> par, inst |-> k, vars |-> vs, loc |-> loc]
NewFrame == Len(fr) + 1
SetVar(f, name, v) == [fr EXCEPT ![f].vars = (name :> v) @@ @]

-----------------------------------------------------------------------------
(* Steps *)

Op(o) == stat = "run" /\ work # <<>> /\ work[1].o = o
It == work[1]
Rest == Tail(work)
Ev(e, f) == [o |-> "ev", e |-> e, f |-> f]

\* a failure somewhere from one line to another
FailIn(exc, from, to) ==
  /\ stat' = "err"
  /\ err' = [exc |-> exc, line |-> from, to |-> to]
  /\ UNCHANGED <<pid, work, vals, fr, insts, ctxs, bufs, log>>

Fail(exc, line) == FailIn(exc, line, line)

\* the program is outside of what the model defines
Undef(why) ==
  /\ stat' = "undef"
  /\ err' = [exc |-> why, line |-> 0, to |-> 0]
  /\ UNCHANGED <<pid, work, vals, fr, insts, ctxs, bufs, log>>

\* continue with the given work and values
Go(w, v) ==
  /\ work' = w
  /\ vals' = v
  /\ UNCHANGED <<pid, fr, insts, ctxs, bufs, log, stat, err>>

Emit(chunks) == bufs' = [bufs EXCEPT ![Len(bufs)] = @ \o chunks]
GoEmit(w, v, chunks) ==
  /\ work' = w
  /\ vals' = v
  /\ Emit(chunks)
  /\ UNCHANGED <<pid, fr, insts, ctxs, log, stat, err>>

GoLog(w, v, x) ==
  /\ work' = w
  /\ vals' = v
  /\ log' = Append(log, x)
  /\ UNCHANGED <<pid, fr, insts, ctxs, bufs, stat, err>>

\* unbounded recursion is not modelled
MaxDepth == 14

\* enters a template function: a frame of its own, a buffer of its own
Enter(v, vs, line, w, vl) ==
  IF Len(bufs) >= MaxDepth THEN Undef("recursion") ELSE
  LET g == NewFrame
      body == IF v.kind = "main"
              THEN [j \in DOMAIN P.files[v.file].root |->
                      [o |-> "N", n |-> P.files[v.file].root[j], f |-> g]]
              ELSE <<[o |-> "C", n |-> v.n, i |-> v.i + 1, f |-> g]>>
      loc == IF v.kind = "main" THEN MainLoc(v.file) ELSE Loc(v.n, v.i + 1, FALSE)
  IN /\ fr' = Append(fr, Frame(v.fr, v.inst, vs, loc))
     /\ work' = body \o <<[o |-> "ret", kind |-> v.kind, name |-> v.name,
                           file |-> v.file, line |-> line]>> \o w
     /\ vals' = vl
     /\ bufs' = Append(bufs, <<>>)
     /\ stat' = "run"
     /\ UNCHANGED <<pid, insts, ctxs, log, err>>

\* arguments of a call: a function of parameter names, or a failure.  Parameters
\* are given by position only ("po"), by position or name (""), by name only ("ko"),
\* or collect the other arguments given by position ("va") or by name ("vk").
BindArgs(ps, dvs, args, kw) ==
  LET pp == SelectSeq(ps, LAMBDA p : p.k \in {"po", ""})
      min == IF Len(args) < Len(pp) THEN Len(args) ELSE Len(pp)
      names == {ps[j].n : j \in {i \in DOMAIN ps : ps[i].k \notin {"va", "vk"}}}
      byname == {ps[j].n : j \in {i \in DOMAIN ps : ps[i].k \in {"", "ko"}}}
      posn == {pp[j].n : j \in 1..min}
      kwn == {kw[j].n : j \in DOMAIN kw}
      has(k) == \E j \in DOMAIN ps : ps[j].k = k
      jx(x) == CHOOSE j \in DOMAIN ps : ps[j].n = x
      px(x) == CHOOSE j \in DOMAIN pp : pp[j].n = x
      kx(x) == CHOOSE j \in DOMAIN kw : kw[j].n = x
      more == SelectSeq(kw, LAMBDA a : a.n \notin byname)
  IN IF Js
     \* surplus arguments are ignored, missing ones undefined
     THEN [ok |-> kw = <<>>,
           vs |-> [x \in names |-> IF x \in posn THEN args[px(x)] ELSE [t |-> "undef"]]]
     ELSE IF
        \/ Len(args) > Len(pp) /\ ~has("va")
        \/ Cardinality(kwn) # Len(kw)
        \/ more # <<>> /\ ~has("vk")
        \/ (kwn \cap byname) \cap posn # {}
        \/ \E x \in names \ (posn \cup (kwn \cap byname)) : ps[jx(x)].d = 0
     THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           vs |-> [x \in {ps[j].n : j \in DOMAIN ps} |->
                     CASE ps[jx(x)].k = "va" ->
                            [t |-> "list", v |-> SubSeq(args, Len(pp) + 1, Len(args))]
                       [] ps[jx(x)].k = "vk" ->
                            [t |-> "dict", v |-> [j \in DOMAIN more |-> [k |-> more[j].n, v |-> more[j].v]]]
                       [] x \in posn -> args[px(x)]
                       [] x \in kwn \cap byname -> kw[kx(x)].v
                       [] OTHER -> dvs[jx(x)]]]

Params(v) == IF v.kind = "def" THEN Ctl(v.n)[v.i].ps ELSE <<>>

\* default values: of nested functions as evaluated at their definition, of
\* top-level ones constants or variables of the context
Defaults(v) ==
  IF v.fr # 0 THEN v.dv
  ELSE [j \in DOMAIN Params(v) |->
          LET d == Params(v)[j].d IN
          IF d = 0 THEN VNone
          ELSE IF Ex(d).k = "c" THEN Ex(d).v
          ELSE RootLook(v.inst, Ex(d).n)]

-----------------------------------------------------------------------------
BindTemplates ==
  /\ stat = "bind"
  /\ LET st == BindChain([insts |-> <<>>, ctxs |-> <<<<>>>>], P.entry, 1)
         \* instances of imports come in between: find the root's
         rk == CHOOSE k \in DOMAIN st.insts :
                  st.insts[k].ctx = 1 /\ st.insts[k].file = RootOf(P.entry)
         \* what a name means that a template both imports and defines is open
         clash == \E f \in DOMAIN P.files :
                    \E x, y \in ToSet(FileItems(f)) :
                      x.k = "imp" /\ y.k # "imp" /\ Nd(x.n).alias = Ctl(y.n)[y.i].name
     IN IF clash THEN Undef("an alias that is a function, too")
        ELSE /\ insts' = st.insts
             /\ ctxs' = st.ctxs
             /\ work' = <<[o |-> "start", k |-> rk]>>
             /\ stat' = "run"
             /\ UNCHANGED <<pid, vals, fr, bufs, log, err>>

Start ==
  /\ Op("start")
  /\ IF P.func = "__main__"
     THEN Enter(FnVal("main", insts[It.k].file, 0, 0, 0, It.k, "", <<>>),
                <<>>, 0, Rest, vals)
     ELSE IF P.func \notin DOMAIN ctxs[1] THEN Fail("KeyError", 0)
     ELSE LET v == ctxs[1][P.func]
              b == BindArgs(Params(v), Defaults(v), <<>>, <<>>)
          IN IF ~b.ok THEN Fail("TypeError", 0)
             ELSE Enter(v, b.vs, 0, Rest, vals)

\* return from a template function: its result is what it output
Return ==
  /\ Op("ret")
  /\ work' = Rest
  /\ vals' = <<[t |-> "res", ch |-> bufs[Len(bufs)]]>> \o vals
  /\ bufs' = SubSeq(bufs, 1, Len(bufs) - 1)
  /\ UNCHANGED <<pid, fr, insts, ctxs, log, stat, err>>

ReturnWith == (Op("wret") \/ Op("lret")) /\ Go(Rest, vals)

Finish ==
  /\ stat = "run" /\ work = <<>>
  /\ stat' = "done"
  /\ UNCHANGED <<pid, work, vals, fr, insts, ctxs, bufs, log, err>>

-----------------------------------------------------------------------------
(* Nodes *)

NodeText == Op("N") /\ Nd(It.n).k = "text"
  /\ Go(<<[o |-> "parts", n |-> It.n, a |-> 0, i |-> 1, f |-> It.f]>> \o Rest, vals)

NodeRaw == Op("N") /\ Nd(It.n).k = "raw"
  /\ GoEmit(Rest, vals, <<Lit(Nd(It.n).s)>>)

NodeElement == Op("N") /\ Nd(It.n).k = "el"
  /\ Go(<<[o |-> "C", n |-> It.n, i |-> 1, f |-> It.f]>> \o Rest, vals)

NodeImport == Op("N") /\ Nd(It.n).k = "imp"
  /\ IF <<It.n, 0>> \in insts[fr[It.f].inst].tops THEN Go(Rest, vals)
     ELSE LET r == ImportVal([insts |-> insts, ctxs |-> ctxs], It.n)
          IN /\ insts' = r.st.insts
             /\ ctxs' = r.st.ctxs
             /\ fr' = SetVar(It.f, Nd(It.n).alias, r.v)
             /\ work' = Rest
             /\ UNCHANGED <<pid, vals, bufs, log, stat, err>>

NodeCode == Op("N") /\ Nd(It.n).k = "code"
  /\ Go([j \in 1..(2 * Len(Nd(It.n).as)) |->
          LET a == Nd(It.n).as[(j + 1) \div 2]
          IN IF j % 2 = 1 THEN Ev(a.e, It.f)
             ELSE [o |-> "set", n |-> a.n, f |-> It.f]] \o Rest, vals)

SetVariable == Op("set")
  /\ fr' = SetVar(It.f, It.n, vals[1])
  /\ work' = Rest
  /\ vals' = Tail(vals)
  /\ UNCHANGED <<pid, insts, ctxs, bufs, log, stat, err>>

\* static text and interpolations, of a text (a = 0) or an attribute (a > 0)
PartsOf(n, a) == IF a = 0 THEN Nd(n).parts ELSE Nd(n).attrs[a].parts

\* (the translator of the context "wrap"s a message, or makes "mk" of it: a
\* string that is marked as markup, and goes to the output as it is)
Translated(msg) == IF P.tr \in {"wrap", "mk"} THEN "[" \o msg \o "&]" ELSE msg
NotTranslatable(n, a) == P.tr = "off" \/ (IF a = 0 THEN Nd(n).notr ELSE Nd(n).attrs[a].notr)

PartStatic == Op("parts")
  /\ It.i <= Len(PartsOf(It.n, It.a))
  /\ PartsOf(It.n, It.a)[It.i].k = "s"
  /\ LET s == PartsOf(It.n, It.a)[It.i].s
         next == <<[It EXCEPT !.i = @ + 1]>> \o Rest
         body == LStrip(RStrip(s))
         raw == It.a = 0 /\ Nd(It.n).raw
     IN IF NotTranslatable(It.n, It.a) \/ body = ""
        THEN GoEmit(next, vals, <<IF raw THEN Lit(s) ELSE Static(s)>>)
        ELSE LET pre == SubSeq(s, 1, Len(s) - Len(LStrip(s)))
                 post == SubSeq(s, Len(RStrip(s)) + 1, Len(s))
             IN /\ work' = next
                /\ Emit(<<Static(pre),
                         IF P.tr = "mk" THEN Lit(Translated(body)) ELSE Static(Translated(body)),
                         Static(post)>>)
                /\ log' = Append(log, "t:" \o body)
                /\ UNCHANGED <<pid, vals, fr, insts, ctxs, stat, err>>

PartExpr == Op("parts")
  /\ It.i <= Len(PartsOf(It.n, It.a))
  /\ PartsOf(It.n, It.a)[It.i].k = "e"
  /\ LET e == PartsOf(It.n, It.a)[It.i].e
     IN Go(<<Ev(e, It.f), [o |-> "out", e |-> e], [It EXCEPT !.i = @ + 1]>> \o Rest, vals)

PartsEnd == Op("parts") /\ It.i > Len(PartsOf(It.n, It.a)) /\ Go(Rest, vals)

\* output of the value of an expression
Output == Op("out")
  /\ LET v == vals[1] IN
     IF v.t = "bad" THEN Fail("Boom:" \o v.id, Ex(It.e).line)
     ELSE IF ~Strable(v) THEN Undef("output of a " \o v.t)
     ELSE GoEmit(Rest, Tail(vals), OutChunks(v))

\* the result of a block called in place
OutputBlock == Op("outb") /\ GoEmit(Rest, Tail(vals), vals[1].ch)

EmitItem == Op("emit") /\ GoEmit(Rest, vals, <<Lit(It.s)>>)

-----------------------------------------------------------------------------
(* Control structures: stage i of the nesting order of element n *)

Stage(k) == Op("C") /\ It.i <= Len(Ctl(It.n)) /\ Ctl(It.n)[It.i].k = k
Cc == Ctl(It.n)[It.i]
Inner == [It EXCEPT !.i = @ + 1]

ControlIf == (Stage("if") \/ Stage("unless"))
  /\ IF CondConst(Cc)
     THEN Go((IF CondTaken(Cc) THEN <<Inner>> ELSE <<>>) \o Rest, vals)
     ELSE Go(<<Ev(Cc.e, It.f), [o |-> "br", it |-> Inner, neg |-> Cc.k = "unless", e |-> Cc.e]>>
               \o Rest, vals)

Branch == Op("br")
  /\ IF vals[1].t = "bad" THEN Fail("Boom:" \o vals[1].id, Ex(It.e).line)
     ELSE Go((IF Truthy(vals[1]) # It.neg THEN <<It.it>> ELSE <<>>) \o Rest, Tail(vals))

ControlFor == Stage("for")
  /\ Go(<<Ev(Cc.e, It.f),
          [o |-> "iter", n |-> It.n, i |-> It.i, f |-> It.f]>> \o Rest, vals)

Iterate == Op("iter")
  /\ LET v == vals[1] IN
     IF v.t = "bad" \/ v.t = "int" \/ v.t = "none" \/ v.t = "bool"
     THEN Fail("TypeError", Ex(Ctl(It.n)[It.i].e).line)
     ELSE IF v.t # "list" THEN Undef("iteration over a " \o v.t)
     ELSE Go(<<[o |-> "loop", n |-> It.n, i |-> It.i, f |-> It.f, v |-> v.v, j |-> 1]>>
               \o Rest, Tail(vals))

RECURSIVE SetVars(_, _, _, _)
SetVars(vs, ts, xs, j) ==
  IF j > Len(ts) THEN vs ELSE SetVars((ts[j] :> xs[j]) @@ vs, ts, xs, j + 1)

Loop == Op("loop")
  /\ IF It.j > Len(It.v) THEN Go(Rest, vals)
     ELSE LET c == Ctl(It.n)[It.i]
              x == It.v[It.j]
              xs == IF c.tup THEN (IF x.t = "list" THEN x.v ELSE <<>>) ELSE <<x>>
          IN IF c.tup /\ x.t # "list" THEN Fail("TypeError", Ex(c.e).line)
             ELSE IF Len(xs) # Len(c.ts) THEN Fail("ValueError", Ex(c.e).line)
             ELSE /\ fr' = [fr EXCEPT ![It.f].vars = SetVars(@, c.ts, xs, 1)]
                  /\ work' = <<[o |-> "C", n |-> It.n, i |-> It.i + 1, f |-> It.f],
                               [It EXCEPT !.j = @ + 1]>> \o Rest
                  /\ UNCHANGED <<pid, vals, insts, ctxs, bufs, log, stat, err>>

ControlWith == Stage("with")
  /\ LET g == NewFrame
         as == Cc.as
         ws == [j \in 1..(2 * Len(as)) |->
                 IF j % 2 = 1 THEN Ev(as[(j + 1) \div 2].e, g)
                 ELSE [o |-> "set", n |-> as[j \div 2].n, f |-> g]]
         loc == {as[j].n : j \in DOMAIN as} \cup Loc(It.n, It.i + 1, FALSE)
     IN /\ fr' = Append(fr, Frame(It.f, fr[It.f].inst, <<>>, loc))
        /\ work' = ws \o <<[Inner EXCEPT !.f = g], [o |-> "wret", line |-> Cc.line]>> \o Rest
        /\ UNCHANGED <<pid, vals, insts, ctxs, bufs, log, stat, err>>

ControlDef == Stage("def")
  /\ IF <<It.n, It.i>> \in insts[fr[It.f].inst].tops THEN Go(Rest, vals)
     ELSE LET ds == SelectSeq(Cc.ps, LAMBDA p : p.d # 0)
          IN Go([j \in DOMAIN ds |-> Ev(ds[j].d, It.f)]
                \o <<[o |-> "mkdef", n |-> It.n, i |-> It.i, f |-> It.f]>> \o Rest, vals)

MakeFunction == Op("mkdef")
  /\ LET c == Ctl(It.n)[It.i]
         ps == c.ps
         nd == Cardinality({j \in DOMAIN ps : ps[j].d # 0})
         \* the k-th of nd defaults lies at position nd - k + 1 of the stack
         rank(j) == Cardinality({m \in 1..j : ps[m].d # 0})
         dv == [j \in DOMAIN ps |-> IF ps[j].d = 0 THEN VNone ELSE vals[nd - rank(j) + 1]]
         v == FnVal("def", insts[fr[It.f].inst].file, It.n, It.i, It.f,
                    fr[It.f].inst, c.name, dv)
     IN /\ fr' = SetVar(It.f, c.name, v)
        /\ vals' = SubSeq(vals, nd + 1, Len(vals))
        /\ work' = Rest
        /\ UNCHANGED <<pid, insts, ctxs, bufs, log, stat, err>>

\* a block is rendered where it is by calling the definition that is in effect
ControlBlock == Stage("block")
  /\ LET k == fr[It.f].inst
         v == RootLook(k, Cc.name)
     IN IF v.t # "fn" THEN Undef("a block hidden by the context")
        ELSE LET b == BindArgs(Params(v), Defaults(v), <<>>, <<>>)
             IN IF ~b.ok THEN Fail("TypeError", Cc.line)
                ELSE Enter(v, b.vs, Cc.line, <<[o |-> "outb"]>> \o Rest, vals)

-----------------------------------------------------------------------------
(* Elements *)

Core == Op("C") /\ It.i > Len(Ctl(It.n))
El == Nd(It.n)

ContentItems(n, f) ==
  IF Nd(n).content # 0
  THEN <<Ev(Nd(n).content, f), [o |-> "out", e |-> Nd(n).content]>>
  ELSE [j \in DOMAIN Nd(n).ch |-> [o |-> "N", n |-> Nd(n).ch[j], f |-> f]]

HasContent(n) == Nd(n).content # 0 \/ Len(Nd(n).ch) > 0

Replaced == Core /\ El.replace # 0
  /\ Go(<<Ev(El.replace, It.f), [o |-> "out", e |-> El.replace]>> \o Rest, vals)

\* a control element has no tags
Untagged == Core /\ El.replace = 0 /\ El.tag = ""
  /\ Go(ContentItems(It.n, It.f) \o Rest, vals)

\* py:strip is decided for the start tag and again for the end tag
Guarded(item) ==
  IF El.strip = 0 THEN <<item>>
  ELSE <<Ev(El.strip, It.f), [o |-> "br", it |-> item, neg |-> TRUE, e |-> El.strip]>>

Tagged == Core /\ El.replace = 0 /\ El.tag # ""
  /\ Go(Guarded([o |-> "stag", n |-> It.n, f |-> It.f])
        \o ContentItems(It.n, It.f)
        \o (IF HasContent(It.n)
            THEN Guarded([o |-> "emit", s |-> "</" \o El.tag \o ">"]) ELSE <<>>)
        \o Rest, vals)

IsStaticAttr(n, j) ==
  LET a == Nd(n).attrs[j] IN
  a.bare \/ (/\ \A i \in DOMAIN a.parts : a.parts[i].k = "s"
             /\ NotTranslatable(n, j) \/ (a.parts # <<>> /\ LStrip(a.parts[1].s) = ""))

StaticAttr(a) ==
  IF a.bare THEN <<Lit(" " \o a.name)>>
  ELSE <<Lit(" " \o a.name \o "=\"")>>
       \o [i \in DOMAIN a.parts |-> Static(a.parts[i].s)] \o <<Lit("\"")>>

StartTag == Op("stag")
  /\ LET n == It.n
         ix == Idx(Len(Nd(n).attrs))
         st == SelectSeq(ix, LAMBDA j : IsStaticAttr(n, j))
         dy == SelectSeq(ix, LAMBDA j : ~IsStaticAttr(n, j))
         close == IF HasContent(n) THEN ">"
                  ELSE IF Nd(n).void THEN " />" ELSE "></" \o Nd(n).tag \o ">"
     IN GoEmit([j \in DOMAIN dy |-> [o |-> "attr", n |-> n, a |-> dy[j], f |-> It.f]]
               \o (IF Nd(n).pyattrs = 0 THEN <<>>
                   ELSE <<Ev(Nd(n).pyattrs, It.f), [o |-> "pyattrs", e |-> Nd(n).pyattrs]>>)
               \o <<[o |-> "emit", s |-> close]>> \o Rest,
               vals,
               <<Lit("<" \o Nd(n).tag)>>
                 \o Concat([j \in DOMAIN st |-> StaticAttr(Nd(n).attrs[st[j]])]))

DynamicAttr == Op("attr")
  /\ LET a == Nd(It.n).attrs[It.a] IN
     IF Len(a.parts) = 1 /\ a.parts[1].k = "e"
     THEN Go(<<Ev(a.parts[1].e, It.f),
               [o |-> "battr", name |-> a.name, e |-> a.parts[1].e]>> \o Rest, vals)
     ELSE GoEmit(<<[o |-> "parts", n |-> It.n, a |-> It.a, i |-> 1, f |-> It.f],
                   [o |-> "emit", s |-> "\""]>> \o Rest,
                 vals, <<Lit(" " \o a.name \o "=\"")>>)

ValueAttr == Op("battr")
  /\ LET v == vals[1] IN
     IF v.t = "bad" THEN FailIn("Boom:" \o v.id, Ex(It.e).line, Ex(It.e).end)
     ELSE IF ~Strable(v) THEN Undef("attribute of a " \o v.t)
     ELSE GoEmit(Rest, Tail(vals), AttrChunks(It.name, v))

PyAttrs == Op("pyattrs")
  /\ LET v == vals[1]
         pairs == v.v
     IN IF ~Truthy(v) THEN Go(Rest, Tail(vals))
        ELSE IF v.t \notin {"dict", "list"} THEN Undef("py:attrs of a " \o v.t)
        ELSE LET ps == IF v.t = "dict" THEN pairs
                       ELSE [j \in DOMAIN pairs |->
                              [k |-> pairs[j].v[1].s, v |-> pairs[j].v[2]]]
                 badj == {j \in DOMAIN ps : ps[j].v.t = "bad"}
             IN IF badj # {}
                THEN Fail("Boom:" \o ps[CHOOSE j \in badj : \A m \in badj : j <= m].v.id,
                          Ex(It.e).line)
                ELSE IF \E j \in DOMAIN ps : ~Strable(ps[j].v) THEN Undef("py:attrs value")
                ELSE GoEmit(Rest, Tail(vals),
                            Concat([j \in DOMAIN ps |-> AttrChunks(ps[j].k, ps[j].v)]))

-----------------------------------------------------------------------------
(* Expressions *)

EvK(k) == Op("ev") /\ Ex(It.e).k = k
X == Ex(It.e)
Push(v) == Go(Rest, <<v>> \o vals)

EvalConst == EvK("c") /\ Push(X.v)

EvalVar == EvK("v")
  /\ LET v == Look(It.f, X.n)
     IN IF v.t = "unbound" THEN Fail("NameError", X.line) ELSE Push(v)

\* operands first, then the operation
EvalStrict ==
  /\ Op("ev")
  /\ X.k \in {"call", "attr", "lit", "cat", "not", "eq", "list", "dict", "idx", "lt"}
  /\ LET ops == CASE X.k = "call" ->
                       <<X.f>> \o X.a \o (IF X.sa = 0 THEN <<>> ELSE <<X.sa>>)
                         \o [j \in DOMAIN X.kw |-> X.kw[j].e]
                         \o (IF X.sk = 0 THEN <<>> ELSE <<X.sk>>)
                  [] X.k \in {"attr", "lit", "not"} -> <<X.e>>
                  [] X.k \in {"cat", "eq", "lt"} -> <<X.a, X.b>>
                  [] X.k = "idx" -> <<X.e, X.i>>
                  [] X.k = "list" -> X.es
                  [] X.k = "dict" -> [j \in DOMAIN X.ps |-> X.ps[j].e]
     IN Go([j \in DOMAIN ops |-> Ev(ops[j], It.f)]
           \o <<[o |-> "do", e |-> It.e, n |-> Len(ops)]>> \o Rest, vals)

EvalLazy ==
  /\ Op("ev")
  /\ X.k \in {"cond", "and", "or"}
  /\ Go(<<Ev(IF X.k = "cond" THEN X.c ELSE X.a, It.f),
          [o |-> "pick", e |-> It.e, f |-> It.f]>> \o Rest, vals)

Pick == Op("pick")
  /\ LET v == vals[1] IN
     IF v.t = "bad" THEN Fail("Boom:" \o v.id, IF X.k = "cond" THEN Ex(X.c).line ELSE X.line)
     ELSE CASE X.k = "cond" ->
                 Go(<<Ev(IF Truthy(v) THEN X.a ELSE X.b, It.f)>> \o Rest, Tail(vals))
            [] X.k = "and" ->
                 IF Truthy(v) THEN Go(<<Ev(X.b, It.f)>> \o Rest, Tail(vals)) ELSE Go(Rest, vals)
            [] X.k = "or" ->
                 IF Truthy(v) THEN Go(Rest, vals) ELSE Go(<<Ev(X.b, It.f)>> \o Rest, Tail(vals))

EvalLambda == EvK("lam")
  /\ Push([t |-> "lam", ps |-> X.ps, b |-> X.b, fr |-> It.f])

\* [b for x in it]: x lives in a scope of its own
EvalComp == EvK("comp")
  /\ Go(<<Ev(X.it, It.f), [o |-> "comp0", e |-> It.e, f |-> It.f]>> \o Rest, vals)

CompStart == Op("comp0")
  /\ LET v == vals[1] IN
     IF v.t # "list" THEN Undef("comprehension over a " \o v.t)
     ELSE /\ fr' = Append(fr, Frame(It.f, fr[It.f].inst, <<>>, {X.x}))
          /\ work' = <<[o |-> "comp", e |-> It.e, g |-> NewFrame, v |-> v.v, j |-> 1]>> \o Rest
          /\ vals' = Tail(vals)
          /\ UNCHANGED <<pid, insts, ctxs, bufs, log, stat, err>>

\* the values of the first j - 1 items lie on the stack
CompNext == Op("comp")
  /\ IF It.j > Len(It.v)
     THEN LET n == Len(It.v) IN
          Go(Rest, <<[t |-> "list", v |-> [k \in 1..n |-> vals[n - k + 1]]]>>
                   \o SubSeq(vals, n + 1, Len(vals)))
     ELSE /\ fr' = SetVar(It.g, X.x, It.v[It.j])
          /\ work' = <<Ev(X.b, It.g), [It EXCEPT !.j = @ + 1]>> \o Rest
          /\ UNCHANGED <<pid, vals, insts, ctxs, bufs, log, stat, err>>

Opd(j) == vals[It.n - j + 1]          \* j-th operand
Below == SubSeq(vals, It.n + 1, Len(vals))
Done(v) == Go(Rest, <<v>> \o Below)
Do(k) == Op("do") /\ X.k = k

DoNot == Do("not")
  /\ IF Opd(1).t = "bad" THEN Fail("Boom:" \o Opd(1).id, X.line)
     ELSE Done(VBool(~Truthy(Opd(1))))

Comparable(v, w) == v.t = w.t /\ v.t \in {"str", "int", "bool", "none"}
DoEq == Do("eq")
  /\ IF Comparable(Opd(1), Opd(2)) THEN Done(VBool(Opd(1) = Opd(2)))
     ELSE Undef("comparison")

DoLt == Do("lt")
  /\ IF Opd(1).t = "int" /\ Opd(2).t = "int" THEN Done(VBool(Opd(1).n < Opd(2).n))
     ELSE Undef("comparison")

DoCat == Do("cat")
  /\ LET a == Opd(1)
         b == Opd(2)
     IN CASE a.t = "str" /\ b.t = "str" -> Done(VStr(a.s \o b.s))
          [] ~Js /\ a.t = "mk" /\ b.t \in {"mk", "str"} ->
               Done(VMk(a.s \o (IF b.t = "mk" THEN b.s ELSE Escape(b.s))))
          [] ~Js /\ a.t = "str" /\ b.t = "mk" -> Done(VMk(Escape(a.s) \o b.s))
          [] a.t = "int" /\ b.t = "int" -> Done(VInt(a.n + b.n))
          [] OTHER -> Undef("addition")

\* literal(x): the string form of x, as markup; None and booleans keep their
\* meaning for attributes
DoLiteral == Do("lit")
  /\ LET v == Opd(1) IN
     IF v.t = "bad" THEN Fail("Boom:" \o v.id, X.line)
     ELSE IF ~Js /\ v.t \in {"none", "bool"} THEN Done(v)
     ELSE IF ~Strable(v) THEN Undef("literal of a " \o v.t)
     ELSE Done(VMk(Str(v)))

DoList == Do("list") /\ Done([t |-> "list", v |-> [j \in DOMAIN X.es |-> Opd(j)]])

DoDict == Do("dict")
  /\ LET D == DOMAIN X.ps
         \* of a repeated key the first place and the last value
         first == SelectSeq([j \in D |-> j], LAMBDA j : \A i \in 1..(j - 1) : X.ps[i].k # X.ps[j].k)
         last(k) == CHOOSE j \in D : X.ps[j].k = k /\ \A i \in D : X.ps[i].k = k => i <= j
     IN Done([t |-> "dict", v |-> [j \in DOMAIN first |-> [k |-> X.ps[first[j]].k, v |-> Opd(last(X.ps[first[j]].k))]]])

DoIndex == Do("idx")
  /\ LET c == Opd(1)
         i == Opd(2)
     IN CASE c.t = "list" /\ i.t = "int" /\ i.n >= 0 ->
               IF i.n < Len(c.v) THEN Done(c.v[i.n + 1]) ELSE Fail("IndexError", X.line)
          [] c.t = "dict" /\ i.t = "str" ->
               LET js == {j \in DOMAIN c.v : c.v[j].k = i.s}
               IN IF js = {} THEN Fail("KeyError", X.line)
                  ELSE Done(c.v[CHOOSE j \in js : TRUE].v)
          [] OTHER -> Undef("index")

\* attributes exist on imported templates: exactly the names they define
DoAttr == Do("attr")
  /\ LET v == Opd(1) IN
     IF v.t # "mod" THEN Undef("attribute of a " \o v.t)
     ELSE IF X.n \in DOMAIN ctxs[v.ctx] THEN Done(ctxs[v.ctx][X.n])
     ELSE Fail("AttributeError", X.line)

\* f(a, *sa, k=kw, **sk)
Spread1 == Opd(2 + Len(X.a))
Spread2 == Opd(It.n)
SpreadOk == /\ IF X.sa = 0 THEN TRUE ELSE Spread1.t = "list"
            /\ IF X.sk = 0 THEN TRUE ELSE Spread2.t = "dict"
CallArgs == [j \in DOMAIN X.a |-> Opd(1 + j)] \o (IF X.sa = 0 THEN <<>> ELSE Spread1.v)
CallKw == [j \in DOMAIN X.kw |->
             [n |-> X.kw[j].n, v |-> Opd((IF X.sa = 0 THEN 1 ELSE 2) + Len(X.a) + j)]]
          \o (IF X.sk = 0 THEN <<>>
              ELSE [j \in DOMAIN Spread2.v |-> [n |-> Spread2.v[j].k, v |-> Spread2.v[j].v]])

CallSpread == Do("call") /\ ~SpreadOk /\ Undef("spread arguments")

CallFunction == Do("call") /\ SpreadOk /\ Opd(1).t = "fn"
  /\ LET v == Opd(1)
         b == BindArgs(Params(v), Defaults(v), CallArgs, CallKw)
     IN IF ~b.ok THEN Fail("TypeError", X.line)
        ELSE Enter(v, b.vs, X.line, Rest, Below)

CallLambda == Do("call") /\ SpreadOk /\ Opd(1).t = "lam"
  /\ LET v == Opd(1)
         g == NewFrame
     IN IF Len(CallArgs) # Len(v.ps) \/ CallKw # <<>> THEN Fail("TypeError", X.line)
        ELSE /\ fr' = Append(fr, Frame(v.fr, fr[v.fr].inst,
                               SetVars(<<>>, v.ps, CallArgs, 1), ToSet(v.ps)))
             /\ work' = <<Ev(v.b, g),
                          [o |-> "lret", line |-> X.line,
                           file |-> insts[fr[v.fr].inst].file]>> \o Rest
             /\ vals' = Below
             /\ UNCHANGED <<pid, insts, ctxs, bufs, log, stat, err>>

\* functions of the context: probes report that they are called
CallHost == Do("call") /\ SpreadOk /\ Opd(1).t = "host"
  /\ LET h == Opd(1).h
         a == CallArgs
     IN CASE h = "p" -> GoLog(Rest, <<a[2]>> \o Below, "p:" \o a[1].s)
          [] h = "boom" -> Fail("Boom:" \o a[1].s, X.line)
          [] h = "gettext" -> GoLog(Rest, <<IF P.tr = "mk" THEN VMk(Translated(a[1].s))
                                            ELSE VStr(Translated(a[1].s))>> \o Below,
                                     "t:" \o a[1].s)
          [] h = "len" -> IF a[1].t = "list" THEN Done(VInt(Len(a[1].v)))
                          ELSE Undef("len")
          [] OTHER -> Undef("host " \o h)

CallOther == Do("call") /\ SpreadOk /\ Opd(1).t \notin {"fn", "lam", "host"}
  /\ IF Opd(1).t \in {"str", "mk", "int", "none", "bool", "list", "dict"}
     THEN Fail("TypeError", X.line) ELSE Undef("call of a " \o Opd(1).t)

-----------------------------------------------------------------------------
(* Verdict: what was observed must be what the machine did *)

\* the active template functions, outermost first, with the lines they may be at
\* (a py:with is both within its function and a scope of its own)
Active ==
  LET step(a, w) ==
        CASE w.o = "ret" -> [out |-> <<[file |-> P.files[w.file].name, kind |-> w.kind,
                                        name |-> w.name, lines |-> a.cur]>> \o a.out,
                             cur |-> {w.line}]
          [] w.o \in {"wret", "lret"} -> [a EXCEPT !.cur = @ \cup {w.line}]
          [] OTHER -> a
  IN FoldLeft(step, [out |-> <<>>, cur |-> err.line..err.to], work).out

TracebackOk(tb) ==
  LET a == Active IN
  /\ Len(tb) = Len(a)
  /\ \A j \in DOMAIN a : /\ tb[j].file = a[j].file
                         /\ tb[j].kind = a[j].kind
                         /\ tb[j].name = a[j].name
                         /\ tb[j].line \in a[j].lines

InnerOk(x) ==
  LET fs == SelectSeq(work, LAMBDA w : w.o \in {"ret", "lret"}) IN
  IF fs = <<>> THEN TRUE
  ELSE x.file = P.files[fs[1].file].name /\ x.line \in err.line..err.to

Out == OutStr(vals[1].ch)

Verdict ==
  LET o == P.obs IN
  CASE stat = "undef" \/ (stat = "err" /\ Js) -> "undef"
    [] stat = "done" /\ ~o.ok -> "raised"
    [] stat = "done" /\ o.out # Out -> "output"
    [] stat = "err" /\ o.ok -> "no-exception"
    [] stat = "err" /\ o.exc # err.exc -> "exception"
    [] o.log # log -> "log"
    [] P.rep /\ ~o.again -> "repeat"
    [] P.rep /\ ~o.ctxkept -> "context"
    [] stat = "err" /\ P.tbs /\ ~o.same -> "identity"
    [] stat = "err" /\ P.tbs /\ ~TracebackOk(o.tb) -> "traceback"
    [] stat = "err" /\ P.tbs /\ ~InnerOk(o.inn) -> "line"
    [] OTHER -> "ok"

Expected ==
  CASE stat = "done" -> [out |-> Out, log |-> log]
    [] stat = "err" -> [exc |-> err.exc, log |-> log, line |-> err.line, tb |-> Active]
    [] OTHER -> [why |-> err.exc]

\* programs without a recorded execution are given the predicted one
Judge ==
  /\ stat \in {"done", "err", "undef"}
  /\ PrintT(<<"V", P.id, Verdict,
              IF Verdict = "ok" THEN "" ELSE ToJson(Expected)>>)
  /\ stat' = "end"
  /\ UNCHANGED <<pid, work, vals, fr, insts, ctxs, bufs, log, err>>

-----------------------------------------------------------------------------
Init ==
  /\ pid \in DOMAIN Progs
  /\ work = <<>> /\ vals = <<>> /\ fr = <<>> /\ insts = <<>> /\ ctxs = <<>>
  /\ bufs = <<>> /\ log = <<>> /\ stat = "bind"
  /\ err = [exc |-> "", line |-> 0, to |-> 0]

Next ==
  \/ BindTemplates \/ Start \/ Return \/ ReturnWith \/ Finish
  \/ NodeText \/ NodeRaw \/ NodeElement \/ NodeImport \/ NodeCode \/ SetVariable
  \/ PartStatic \/ PartExpr \/ PartsEnd \/ Output \/ OutputBlock \/ EmitItem
  \/ ControlIf \/ Branch \/ ControlFor \/ Iterate \/ Loop \/ ControlWith
  \/ ControlDef \/ MakeFunction \/ ControlBlock
  \/ Replaced \/ Untagged \/ Tagged \/ StartTag \/ DynamicAttr \/ ValueAttr \/ PyAttrs
  \/ EvalConst \/ EvalVar \/ EvalStrict \/ EvalLazy \/ Pick \/ EvalLambda
  \/ EvalComp \/ CompStart \/ CompNext
  \/ DoNot \/ DoEq \/ DoLt \/ DoCat \/ DoLiteral \/ DoList \/ DoDict \/ DoIndex \/ DoAttr
  \/ CallSpread \/ CallFunction \/ CallLambda \/ CallHost \/ CallOther
  \/ Judge

\* TLC reports a deadlock if any other state has no successor: the rules are total
Ended == stat = "end" /\ UNCHANGED vars

Spec == Init /\ [][Next \/ Ended]_vars

-----------------------------------------------------------------------------
(* Invariants of the design *)

Top == bufs[Len(bufs)]
LastChunk == Top[Len(Top)]

\* nothing that came from a value or from static text is output with an
\* unescaped special character, and escaping loses nothing
HasSpecial(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"<", ">", "\"", "'"}
NoRawValue ==
  (bufs # <<>> /\ Top # <<>> /\ LastChunk.k = "esc") =>
     /\ ~HasSpecial(LastChunk.s)
     /\ LastChunk.s = Escape(LastChunk.o)

\* one buffer per active function
Balanced ==
  stat = "run" => Len(bufs) = Len(SelectSeq(work, LAMBDA w : w.o = "ret"))

\* a rendering leaves exactly its result
CleanEnd == stat = "done" => bufs = <<>> /\ Len(vals) = 1 /\ vals[1].t = "res"

\* scopes form a forest: a frame's parent is older
Lexical == \A f \in DOMAIN fr : fr[f].par < f

\* the context given by the caller never changes under a rendering: only
\* names it did not have are added
UserCtxKept == \A c \in DOMAIN ctxs : DOMAIN ctxs[c] \cap DOMAIN UserCtx = {}
=============================================================================
