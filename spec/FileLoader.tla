----------------------------- MODULE FileLoader -----------------------------
(* Loading templates from files (properties C11 and C12).

   The state is the file system (contents, modification times), the clock, the
   loader (search paths, reload flag, cache, time of the last check) and the
   loads in progress.  A load is a sequence of small steps: check for changes,
   look in the cache, resolve the name, open the file (and note its
   modification time), read it, compile it - which loads the ancestor - and
   store the template.  Files can change, time can pass and other threads can
   load between any two steps.

   TLC checks that this design keeps the properties, and prints histories with
   what each load must give; the replay runs them on the real loader, trying
   every point of its code for what happens during a load. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.FL_PARAMS)
Alphabet == {Params.alphabet[j] : j \in DOMAIN Params.alphabet}
Given == {Params.given[j] : j \in DOMAIN Params.given}
Bound == Params.bound
MaxDuring == Params.during           \* operations during one load
Interval == 2                        \* in ticks of the clock

VARIABLES ld,       \* the loader and its surroundings
          run,      \* the frames of a load in progress, innermost last, or << >>
          during,   \* operations since it began
          at0,      \* the number of changes of files when it began
          chk0,     \* whether it began with a check
          hist, rest, left
vars == <<ld, run, during, at0, chk0, hist, rest, left>>

(* ld: fs: file -> [c, m, ino], c: content [k, to, v]; files are "path/name"
       now, last, reload, reloaded: ever, paths
       objs: templates [n, c, m, file, par, at]
       caches: the cache dictionaries there have been, the last one is current
       ver: number of changes of files *)

Nul == [k |-> "none", to |-> "", v |-> 0]
Absent == [c |-> Nul, m |-> 0, ino |-> 0]
File(l, f) == IF f \in DOMAIN l.fs THEN l.fs[f] ELSE Absent
Exists(l, f) == f \in DOMAIN l.fs /\ l.fs[f].ino # 0

\* a name that starts with = stands for the absolute one of a file
Absolute(n) == SubSeq(n, 1, 1) = "="
Rest(n) == SubSeq(n, 2, Len(n))
Resolve(l, n) ==
  IF Absolute(n) THEN (IF Exists(l, Rest(n)) THEN Rest(n) ELSE "")
  ELSE LET hits == SelectSeq(l.paths, LAMBDA p : Exists(l, p \o "/" \o n))
       IN IF hits = << >> THEN "" ELSE hits[1] \o "/" \o n

Cache(l) == Last(l.caches)
CheckDue(l) == l.reload /\ l.now - l.last >= Interval
Changed(l, n) == LET o == l.objs[Cache(l)[n]] IN ~Exists(l, o.file) \/ File(l, o.file).m # o.m
AnyChanged(l) == \E n \in DOMAIN Cache(l) : Changed(l, n)

Frame(n) == [n |-> n, pc |-> "check", d |-> 0, file |-> "", m |-> 0, c |-> Nul, ino |-> 0, par |-> 0, o |-> 0]

\* s = [l, st: frames, ret: a template or 0, err]
Ret(s, o) == [s EXCEPT !.st = Front(@), !.ret = o]
Raise(s, e) == [s EXCEPT !.st = << >>, !.err = e, !.ret = 0]
Set(s, f) == [s EXCEPT !.st = Append(Front(@), f)]

StepLoad(s) ==
  LET f == Last(s.st)
      l == s.l
  IN CASE f.pc = "check" -> Set(s, [f EXCEPT !.pc = IF CheckDue(l) THEN "stat" ELSE "look"])
       [] f.pc = "stat" -> Set(s, [f EXCEPT !.pc = IF AnyChanged(l) THEN "purge" ELSE "checked"])
       \* loads in progress keep the cache they had
       [] f.pc = "purge" -> Set([s EXCEPT !.l.caches = Append(@, [x \in {} |-> 0])], [f EXCEPT !.pc = "checked"])
       [] f.pc = "checked" -> Set([s EXCEPT !.l.last = l.now], [f EXCEPT !.pc = "look"])
       [] f.pc = "look" -> Set(s, [f EXCEPT !.pc = "get", !.d = Len(l.caches)])
       [] f.pc = "get" -> IF f.n \in DOMAIN l.caches[f.d] THEN Ret(s, l.caches[f.d][f.n]) ELSE Set(s, [f EXCEPT !.pc = "resolve"])
       [] f.pc = "resolve" -> IF Resolve(l, f.n) = "" THEN Raise(s, "ENOENT")
                              ELSE Set(s, [f EXCEPT !.pc = "open", !.file = Resolve(l, f.n)])
       [] f.pc = "open" -> IF ~Exists(l, f.file) THEN Raise(s, "ENOENT")
                           ELSE LET x == l.fs[f.file]
                                IN Set(s, [f EXCEPT !.pc = "read", !.m = x.m, !.c = x.c, !.ino = x.ino])
       \* a file replaced or deleted since it was opened still has its old content
       [] f.pc = "read" -> Set(s, [f EXCEPT !.pc = "compile",
                                             !.c = IF File(l, f.file).ino = f.ino THEN l.fs[f.file].c ELSE @])
       [] f.pc = "compile" -> IF f.c.k \in {"bad", "utf8"} THEN Raise(s, f.c.k)
                              ELSE IF f.c.k = "ext"
                              THEN [s EXCEPT !.st = Append(Append(Front(@), [f EXCEPT !.pc = "parent"]), Frame(f.c.to))]
                              ELSE Set(s, [f EXCEPT !.pc = "store"])
       [] f.pc = "parent" -> Set(s, [f EXCEPT !.pc = "store", !.par = s.ret])
       [] f.pc = "store" ->
            LET known == IF f.n \in DOMAIN l.caches[f.d] THEN l.caches[f.d][f.n] ELSE 0
                o == [n |-> f.n, c |-> f.c, m |-> f.m, file |-> f.file, par |-> f.par, at |-> l.ver]
                k == Len(l.objs) + 1
            IN IF known # 0 THEN Set(s, [f EXCEPT !.pc = "done", !.o = known])
               ELSE Set([s EXCEPT !.l.objs = Append(@, o), !.l.caches[f.d] = (f.n :> k) @@ @], [f EXCEPT !.pc = "done", !.o = k])
       [] f.pc = "done" -> Ret(s, f.o)

RECURSIVE RunLoad(_)
RunLoad(s) == IF s.st = << >> THEN s ELSE RunLoad(StepLoad(s))
Start(l, n) == [l |-> l, st |-> <<Frame(n)>>, ret |-> 0, err |-> ""]
Load(l, n) == RunLoad(Start(l, n))

-----------------------------------------------------------------------------
(* What a template renders: the root ancestor's name and version, what its
   descendants put in their blocks, and what it imports *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Str(_)
Str(k) == IF k < 10 THEN Digits[k + 1] ELSE Str(k \div 10) \o Digits[(k % 10) + 1]

RECURSIVE Root(_, _)
Root(objs, o) == IF objs[o].par = 0 THEN o ELSE Root(objs, objs[o].par)

\* the versions of the descendants of the root, most derived first
RECURSIVE Versions(_, _)
Versions(objs, o) == IF objs[o].par = 0 THEN "" ELSE "|" \o objs[o].c.id \o ":" \o Str(objs[o].c.v) \o Versions(objs, objs[o].par)

\* [l, err]: the templates imported by a template are loaded whenever it is set up, and theirs
RECURSIVE Bind(_, _)
Bind(l, o) ==
  LET c == l.objs[Root(l.objs, o)].c IN
  IF c.k # "imp" THEN [l |-> l, err |-> "", o |-> 0]
  ELSE LET s == Load(l, c.to) IN
       IF s.err # "" THEN [l |-> s.l, err |-> s.err, o |-> 0]
       ELSE LET b == Bind(s.l, s.ret) IN [l |-> b.l, err |-> b.err, o |-> s.ret]

\* [l, r]
Render(l, o) ==
  LET r == Root(l.objs, o)
      c == l.objs[r].c
      own == c.id \o ":" \o Str(c.v) \o Versions(l.objs, o)
      b == Bind(l, o)
  IN [l |-> b.l,
      r |-> IF b.err # "" THEN b.err
            ELSE IF b.o = 0 THEN own
            ELSE own \o "(" \o b.l.objs[b.o].c.id \o ":" \o Str(b.l.objs[b.o].c.v) \o ")"]

\* the outcome of a load that ended as s
Outcome(s) == IF s.err # "" THEN [l |-> s.l, r |-> s.err, o |-> 0]
              ELSE LET x == Render(s.l, s.ret) IN [l |-> x.l, r |-> x.r, o |-> s.ret]

Fresh(l, n) == Outcome(Load([l EXCEPT !.caches = <<[x \in {} |-> 0]>>, !.objs = << >>, !.reload = FALSE], n)).r

\* [must: what the load has to give ("?": not determined), same: a template it has to be (0: not determined)]
Obligation(x, l0, l, n, quiet) ==
  LET f == Fresh(l, n)
      determined == quiet /\ (~l.reload \/ x.r = f)
  IN [must |-> IF determined THEN x.r ELSE "?",
      same |-> IF x.o = 0 THEN 0
               ELSE IF ~l.reloaded \/ (l.objs[x.o].at = l.ver /\ quiet) THEN x.o ELSE 0]

-----------------------------------------------------------------------------
Change(l, f, x) == [l EXCEPT !.fs = (f :> x) @@ @, !.ver = @ + 1]
Content(op, v) == [k |-> op.k, to |-> op.to, v |-> v, id |-> op.id]

\* in reload mode no file comes to hide another one
Base(f) == SubSeq(f, 4, Len(f))
Hides(l, op) == l.reload /\ ~Exists(l, op.f) /\ \E f \in DOMAIN l.fs : Exists(l, f) /\ f # op.f /\ Base(f) = Base(op.f)

EnvOp(l, op) ==
  CASE op.o = "write" ->
         LET v == l.ver + 1
             old == File(l, op.f)
         IN Change(l, op.f, [c |-> Content(op, v), m |-> IF op.older THEN 0 - v ELSE v,
                             ino |-> IF op.inplace /\ old.ino # 0 THEN old.ino ELSE v])
    [] op.o = "touch" -> Change(l, op.f, [File(l, op.f) EXCEPT !.m = l.ver + 1])
    [] op.o = "delete" -> Change(l, op.f, Absent)
    [] op.o = "tick" -> [l EXCEPT !.now = @ + op.t]
    [] op.o = "addpath" -> [l EXCEPT !.paths = @ \o op.ps]
    [] op.o = "reload" -> [l EXCEPT !.reload = op.flag, !.reloaded = @ \/ op.flag]
IsEnv(op) == op.o \in {"write", "touch", "delete", "tick", "addpath", "reload"}
Enabled(l, op) ==
  CASE op.o = "write" -> ~Hides(l, op)
    [] op.o \in {"touch", "delete"} -> Exists(l, op.f)
    \* adding a path that is there changes nothing: the first one counts
    [] op.o = "addpath" -> \A p \in Range(op.ps) : Len(SelectSeq(l.paths, LAMBDA x : x = p)) < 2
    [] op.o = "reload" -> l.reload # op.flag
    [] OTHER -> TRUE

Record(op, must, same) == [op |-> op, must |-> must, same |-> same]

\* nothing is in progress
Idle == run = << >>
Env(op) == /\ IsEnv(op) /\ Enabled(ld, op)
           /\ ld' = EnvOp(ld, op)
           /\ hist' = Append(hist, Record(op, "", 0))
           /\ during' = IF Idle THEN 0 ELSE during + 1
           /\ UNCHANGED <<run, at0, chk0>>

\* by another thread, if a load is in progress
WholeLoad(op) == /\ op.o = "load"
                 /\ LET s == Load(ld, op.n)
                        x == Outcome(s)
                        q == Obligation(x, ld, s.l, op.n, TRUE)
                    IN /\ hist' = Append(hist, Record(op, q.must, q.same))
                       /\ ld' = x.l
                       \* after a check, with nothing changing meanwhile, the template is the current one
                       /\ Assert(CheckDue(ld) /\ Idle => q.must # "?", <<"stale", hist'>>)
                 /\ during' = IF Idle THEN 0 ELSE during + 1
                 /\ UNCHANGED <<run, at0, chk0>>

Begin(op) == /\ op.o = "begin" /\ Idle
             /\ run' = <<Start(ld, op.n)>>
             /\ during' = 0 /\ at0' = ld.ver /\ chk0' = CheckDue(ld)
             /\ hist' = Append(hist, Record(op, "", 0))
             /\ UNCHANGED ld

\* one step of the load in progress; the last one ends it
StepOn == /\ ~Idle
          /\ LET s == StepLoad([run[1] EXCEPT !.l = ld])
             IN IF s.st # << >> THEN ld' = s.l /\ run' = <<s>> /\ UNCHANGED hist
                ELSE LET x == Outcome(s)
                         n == run[1].st[1].n
                         q == Obligation(x, ld, s.l, n, at0 = s.l.ver)
                     IN /\ ld' = x.l /\ run' = << >>
                        /\ hist' = Append(hist, Record([o |-> "end", n |-> n], q.must, q.same))
                        /\ Assert(chk0 /\ at0 = s.l.ver /\ s.l.last = s.l.now => q.must # "?", <<"stale", hist'>>)
          /\ UNCHANGED <<during, at0, chk0>>

Do(op) == IF Idle THEN Env(op) \/ WholeLoad(op) \/ Begin(op)
          ELSE during < MaxDuring /\ (Env(op) \/ WholeLoad(op))

Fs0 == [f \in DOMAIN Params.fs |-> [c |-> Params.fs[f].c, m |-> Params.fs[f].m, ino |-> Params.fs[f].ino]]
Init == /\ ld = [fs |-> Fs0, now |-> 0, last |-> 0, reload |-> Params.reload, reloaded |-> Params.reload, paths |-> Params.paths,
                 objs |-> << >>, caches |-> <<[x \in {} |-> 0]>>, ver |-> Params.ver]
        /\ run = << >> /\ during = 0 /\ at0 = 0 /\ chk0 = FALSE /\ hist = << >>
        /\ rest \in Given /\ left = Bound

\* operations of a given history that are not possible are left out
ReadOn == /\ rest # << >> /\ (Idle \/ during < MaxDuring)
          /\ rest' = Tail(rest) /\ left' = left
          /\ IF ENABLED Do(Head(rest)) THEN Do(Head(rest)) ELSE UNCHANGED <<ld, run, during, at0, chk0, hist>>

\* The last operation of a history is a load.  Or, if Params.nested, it is a
\* load from the alphabet with other operations during it, and what follows
Nested == Params.nested
Extend == \E op \in Alphabet :
            /\ rest = << >> /\ left > 0
            /\ IF Nested THEN (left = Bound <=> op.o = "begin") /\ (left = Bound <=> Idle)
                          ELSE left = 1 => op.o = "load" /\ Idle
            /\ Do(op) /\ left' = left - 1 /\ UNCHANGED rest

Finish == /\ rest = << >> /\ Idle /\ (left = 0 \/ (Nested /\ left < Bound)) /\ left # -1
          /\ rest' = Params.then /\ left' = -1
          /\ UNCHANGED <<ld, run, during, at0, chk0, hist>>

Next == Extend \/ ReadOn \/ Finish \/ (StepOn /\ UNCHANGED <<rest, left>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* without reload, a name stands for one template for ever
Forever == [][(~ld.reloaded /\ ~ld'.reloaded) => \A n \in DOMAIN Cache(ld) : n \in DOMAIN Cache(ld') /\ Cache(ld')[n] = Cache(ld)[n]]_vars

\* what is cached was stored by a load that succeeded
Sound == \A n \in DOMAIN Cache(ld) : Cache(ld)[n] \in DOMAIN ld.objs /\ ld.objs[Cache(ld)[n]].n = n

Emit == (Idle /\ rest = << >> /\ left = -1) => PrintT("FL " \o ToJson(hist))
=============================================================================
