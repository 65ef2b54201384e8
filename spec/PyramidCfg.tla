----------------------------- MODULE PyramidCfg -----------------------------
(* Pyramid applications that render with Tonnikala (property C20).

   An application is configured by settings, read when tonnikala.pyramid is
   included, and by directives after that.  Then it renders templates by name
   while files are written and deleted.  Every application has a loader of its
   own.  The files have versions; a rendering shows which version of which
   file it came from, whether static text was translated, and which values
   the template saw.

   The state is what the implementation keeps (flags, search paths, cache).
   The invariants say, of the history alone, what the configuration means. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.PC_PARAMS)
Apps == DOMAIN Params.settings           \* application -> settings it may have
Names == Params.names                    \* name -> kind, directory, base name, extension
Bases == Params.bases                    \* base name -> how it uses which other name
Alphabet == ToSet(Params.alphabet)

VARIABLES
  sets,     \* application -> settings
  conf,     \* application -> what the configuration amounts to
  cache,    \* application -> name -> the file and version compiled
  served,   \* applications that are configured
  files,    \* file -> version
  ver,      \* last version given
  left,     \* operations that may follow
  hist      \* operations so far, each with its result
vars == <<sets, conf, cache, served, files, ver, left, hist>>

-----------------------------------------------------------------------------
(* settings: exts, paths: sequences; reload, pyramid, l10n: "T", "F" or "" *)
Set(x) == x = "T"
FromSettings(s) == [exts |-> ToSet(s.exts), paths |-> s.paths,
                    reload |-> IF s.reload # "" THEN Set(s.reload) ELSE Set(s.pyramid),
                    l10n |-> Set(s.l10n)]

Configure(op) ==
  LET a == op.a IN
  /\ a \notin served
  /\ conf' = [conf EXCEPT ![a] =
       CASE op.o = "ext" -> [@ EXCEPT !.exts = @ \cup ToSet(op.v)]
         [] op.o = "paths" -> [@ EXCEPT !.paths = @ \o op.v]
         [] op.o = "reload" -> [@ EXCEPT !.reload = op.v]
         [] op.o = "l10n" -> [@ EXCEPT !.l10n = op.v]
         [] op.o = "include" -> @]       \* including it again changes nothing
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<sets, cache, served, files, ver>>

-----------------------------------------------------------------------------
(* Resolution and loading *)
At(d, b) == d \o "/" \o b
FileOf(fs, ps, x) ==
  IF x.kind # "plain" THEN IF At(x.d, x.b) \in DOMAIN fs THEN At(x.d, x.b) ELSE ""
  ELSE LET ok == SelectSeq(ps, LAMBDA d : At(d, x.b) \in DOMAIN fs) IN
       IF ok = << >> THEN "" ELSE At(ok[1], x.b)

Stale(c) == \E n \in DOMAIN c : c[n].f \notin DOMAIN files \/ files[c[n].f] # c[n].v
Current(a) == IF conf[a].reload /\ Stale(cache[a]) THEN << >> ELSE cache[a]

\* the named template and those it uses, in order; stops at one that is missing
RECURSIVE Chain(_, _, _)
Chain(a, c, n) ==
  LET f == FileOf(files, conf[a].paths, Names[n])
      got == IF n \in DOMAIN c THEN c[n] ELSE [f |-> f, v |-> IF f = "" THEN 0 ELSE files[f]]
      base == Bases[Names[n].b]
  IN IF got.f = "" THEN [c |-> c, parts |-> << >>, ok |-> FALSE]
     ELSE LET c1 == (n :> got) @@ c IN
          IF base.how = "" THEN [c |-> c1, parts |-> <<got>>, ok |-> TRUE]
          ELSE LET r == Chain(a, c1, base.to) IN [r EXCEPT !.parts = <<got>> \o @]

Result(res, parts, tr) == [res |-> res, parts |-> parts, tr |-> tr]

Render(op) ==
  LET a == op.a
      r == Chain(a, Current(a), op.n)
  IN IF Names[op.n].ext \notin conf[a].exts
     THEN /\ hist' = Append(hist, op @@ Result("foreign", << >>, FALSE))
          /\ served' = served \cup {a}
          /\ UNCHANGED <<sets, conf, cache, files, ver>>
     ELSE /\ op.v = "bad" => r.ok
          /\ cache' = [cache EXCEPT ![a] = r.c]
          /\ served' = served \cup {a}
          /\ hist' = Append(hist, op @@ CASE ~r.ok -> Result("missing", << >>, FALSE)
                                          [] op.v = "bad" -> Result("value", << >>, FALSE)
                                          [] OTHER -> Result("ok", r.parts, conf[a].l10n))
          /\ UNCHANGED <<sets, conf, files, ver>>

-----------------------------------------------------------------------------
(* Files *)

\* in reload mode, no new file comes before one that was loaded
Hides(fs) == \E a \in Apps : conf[a].reload /\ \E n \in DOMAIN cache[a] :
                 cache[a][n].f \in DOMAIN files /\ FileOf(fs, conf[a].paths, Names[n]) # cache[a][n].f
Write(op) ==
  LET fs == (op.f :> ver + 1) @@ files IN
  /\ op.f \notin DOMAIN files => ~Hides(fs)
  /\ files' = fs /\ ver' = ver + 1
  /\ hist' = Append(hist, op @@ [ver |-> ver + 1])
  /\ UNCHANGED <<sets, conf, cache, served>>

Delete(op) ==
  /\ op.f \in DOMAIN files
  /\ files' = [f \in DOMAIN files \ {op.f} |-> files[f]]
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<sets, conf, cache, served, ver>>

Do(op) == CASE op.o = "render" -> Render(op)
            [] op.o = "write" -> Write(op)
            [] op.o = "delete" -> Delete(op)
            [] OTHER -> Configure(op)

-----------------------------------------------------------------------------
(* any operations of the alphabet, then those of one sequence that are possible *)
Init ==
  /\ sets \in [Apps -> UNION {ToSet(Params.settings[a]) : a \in Apps}]
  /\ \A a \in Apps : sets[a] \in ToSet(Params.settings[a])
  /\ conf = [a \in Apps |-> FromSettings(sets[a])]
  /\ cache = [a \in Apps |-> << >>]
  /\ served = {} /\ files = Params.files /\ ver = Params.ver /\ hist = << >>
  /\ \E g \in DOMAIN Params.then : left = [any |-> Params.bound, then |-> Params.then[g]]

Next ==
  \/ /\ left.any > 0
     /\ \/ \E op \in Alphabet : Do(op) /\ left' = [left EXCEPT !.any = @ - 1]
        \/ Params.fewer /\ left' = [left EXCEPT !.any = 0] /\ UNCHANGED <<sets, conf, cache, served, files, ver, hist>>
  \/ /\ left.any = 0 /\ left.then # << >>
     /\ left' = [left EXCEPT !.then = Tail(@)]
     /\ IF ENABLED Do(left.then[1]) THEN Do(left.then[1])
        ELSE UNCHANGED <<sets, conf, cache, served, files, ver, hist>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the configuration means, of the history alone *)
OpsOf(a, o) == LET q == SelectSeq(hist, LAMBDA x : x.o = o) IN SelectSeq(q, LAMBDA x : x.a = a)
Renders(a) == OpsOf(a, "render")

Reloads(a) == LET q == OpsOf(a, "reload") IN
  IF q # << >> THEN Last(q).v
  ELSE \/ sets[a].reload = "T"
       \/ sets[a].reload = "" /\ sets[a].pyramid = "T"
Translates(a) == LET q == OpsOf(a, "l10n") IN IF q # << >> THEN Last(q).v ELSE sets[a].l10n = "T"
Registered(a) == ToSet(sets[a].exts) \cup UNION {ToSet(x.v) : x \in ToSet(OpsOf(a, "ext"))}
Search(a) == sets[a].paths \o FlattenSeq([j \in DOMAIN OpsOf(a, "paths") |-> OpsOf(a, "paths")[j].v])

Now == IF hist = << >> THEN [o |-> "none"] ELSE Last(hist)

\* exactly the registered extensions are rendered
Extensions == Now.o = "render" => ((Now.res = "foreign") <=> Names[Now.n].ext \notin Registered(Now.a))
\* translation follows its flag
Translation == (Now.o = "render" /\ Now.res = "ok") => Now.tr = Translates(Now.a)
\* in reload mode, what is rendered is what would be found and read now
Found(a, n) == FileOf(files, Search(a), Names[n])
Fresh == (Now.o = "render" /\ Reloads(Now.a)) =>
  /\ Now.res = "ok" => /\ Now.parts[1].f = Found(Now.a, Now.n)
                       /\ \A p \in ToSet(Now.parts) : p.f \in DOMAIN files /\ files[p.f] = p.v
  /\ Now.res = "missing" => \E n \in DOMAIN Names : Found(Now.a, n) = ""
\* otherwise, whatever was rendered once is rendered again
Same == (Now.o = "render" /\ Now.res = "ok" /\ ~Reloads(Now.a)) =>
  \A x \in ToSet(Renders(Now.a)) : ((x.n = Now.n /\ x.res = "ok") => x.parts = Now.parts)
\* the first time, the files are found in the order of the search paths
First == (Now.o = "render" /\ Now.res = "ok" /\ ~Reloads(Now.a)
          /\ Len(Renders(Now.a)) = 1) => Now.parts[1].f = Found(Now.a, Now.n)
\* applications have nothing to do with each other
Separate == \A a \in Apps : /\ conf[a].reload = Reloads(a) /\ conf[a].l10n = Translates(a)
                            /\ conf[a].exts = Registered(a) /\ conf[a].paths = Search(a)

Done == left.any = 0 /\ left.then = << >>
Emit == Done => PrintT("PC " \o ToJson([sets |-> sets, hist |-> hist]))
=============================================================================
