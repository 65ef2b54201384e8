----------------------------- MODULE Isolation -----------------------------
(* Renderings that share templates, ancestors, imports, the loader and the
   caller's data (property C10).

   What a single rendering does is the business of TkMachine: its transitions
   read and write nothing that does not belong to the rendering.  Here several
   clients render, each in segments between which any other may go on.  A
   client is a template, a function and a context; it may render again and
   again, and the buffer it got can be read at any later time.  The only state
   that the renderings share is what the loader has compiled.

   TLC checks that this design isolates: whatever the order, what a client
   gets is what it gets alone.  The schedules are printed, and replayed with
   real renderings (whose single outcomes TkMachine has judged). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Params == JsonDeserialize(IOEnv.ISO_PARAMS)
Clients == DOMAIN Params.segments
Segments(c) == Params.segments[c]
Template(c) == Params.template[c]
Bound == Params.bound            \* operations

VARIABLES at,       \* client -> the segments done, or 0
          out,      \* client -> the output of the current rendering
          kept,     \* client -> the last buffer it was given, << >> before
          loaded,   \* templates compiled
          hist
vars == <<at, out, kept, loaded, hist>>

Piece(c, k) == <<c, k>>
Solo(c) == [k \in 1..Segments(c) |-> Piece(c, k)]

\* the first segment loads the template unless that was done
Segment(c) ==
  /\ at[c] < Segments(c)
  /\ loaded' = loaded \cup {Template(c)}
  /\ at' = [at EXCEPT ![c] = (@ + 1) % Segments(c)]
  /\ LET o == Append(out[c], Piece(c, at[c] + 1)) IN
     IF at'[c] = 0 THEN out' = [out EXCEPT ![c] = << >>] /\ kept' = [kept EXCEPT ![c] = o]
     ELSE out' = [out EXCEPT ![c] = o] /\ UNCHANGED kept
  /\ hist' = Append(hist, [o |-> "run", c |-> c])

\* only where renderings are not split
Read(c) ==
  /\ Params.reads /\ kept[c] # << >>
  /\ hist # << >> => hist[Len(hist)].o # "read" \/ hist[Len(hist)].c < c
  /\ hist' = Append(hist, [o |-> "read", c |-> c])
  /\ UNCHANGED <<at, out, kept, loaded>>

\* a new loader, for what begins from now on
Renew ==
  /\ Params.renews /\ hist # << >> /\ loaded # {}
  /\ loaded' = {} /\ hist' = Append(hist, [o |-> "renew", c |-> 0])
  /\ UNCHANGED <<at, out, kept>>

Init == /\ at = [c \in Clients |-> 0] /\ out = [c \in Clients |-> << >>] /\ kept = [c \in Clients |-> << >>]
        /\ loaded = {} /\ hist = << >>

Next == /\ Len(hist) < Bound
        /\ (\E c \in Clients : Segment(c) \/ Read(c)) \/ Renew
Spec == Init /\ [][Next]_vars

Idle == \A c \in Clients : at[c] = 0
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
Isolated == \A c \in Clients : /\ IsPrefix(out[c], Solo(c)) /\ Len(out[c]) = at[c]
                               /\ kept[c] \in {<< >>, Solo(c)}

\* every client as often as is asked for
Count(c) == Cardinality({k \in DOMAIN hist : hist[k].o = "run" /\ hist[k].c = c})
Fair == Params.times > 0 => \A c \in Clients : Count(c) = Params.times * Segments(c)
NotTooOften == Params.times > 0 => \A c \in Clients : Count(c) <= Params.times * Segments(c)
Emit == (Len(hist) = Bound /\ Idle /\ Fair) => PrintT("IS " \o ToJson(hist))
=============================================================================
