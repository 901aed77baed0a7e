-------------------------------- MODULE Ops ---------------------------------
(* The operations of the public API as events, and what each does to the     *)
(* state.  The same events are generated from the specification (MCWorld) and *)
(* recorded from the code (WorldTrace).                                       *)
EXTENDS Display

RECURSIVE Step(_, _), Build(_, _, _)
Step(s, e) ==
  CASE e.op = "new"      -> NewLeaf(s, e.c)
    [] e.op = "newgroup" -> NewGroup(s, e.items, e.label)
    [] e.op = "append"   -> AppendTo(s, e.g, e.i)
    [] e.op = "insert"   -> InsertInto(s, e.g, e.idx, e.items)
    [] e.op = "pop"      -> PopAt(s, e.g, e.idx)
    [] e.op = "setitem"  -> SetAt(s, e.g, e.idx, e.items)
    [] e.op = "setslice" -> SetSliceAt(s, e.g, e.i, e.j, e.items)
    [] e.op = "getslice" -> GetSlice(s, e.g, e.i, e.j)
    [] e.op = "badedit"  -> Refused(s)
    [] e.op = "flip"     -> Flip(s, e.g)
    [] e.op = "save"     -> LET r == Save(s, e.g, e.f)
                            IN [r EXCEPT !.st.files[e.f] = [bad |-> FALSE, el |-> @.el, items |-> @.items, dump |-> IF "dump" \in DOMAIN e THEN e.dump ELSE <<>>]]
    [] e.op = "load"     -> LoadFrom(s, e.g, e.f, e.app)
    [] e.op = "badload"  -> Refused(s)
    [] e.op = "subpath"  -> SubPath(s, e.g, e.z, e.back)
    [] e.op = "revappend" -> AppendReverse(s, e.g, e.sf, e.sl)
    [] e.op = "setax"    -> [ok |-> TRUE, st |-> [s EXCEPT !.el[e.g].p = e.p]]      \* angle or index of an axicon
    [] e.op = "setap"    -> [ok |-> TRUE, st |-> [s EXCEPT !.el[e.g].ap = e.ap]]
    [] e.op = "setna"    -> [ok |-> TRUE, st |-> [s EXCEPT !.el[e.g].na = e.na]]
    [] e.op = "build"    -> Build(s, e.sub, TRUE)      \* several constructions at once
    [] OTHER             -> [ok |-> TRUE, st |-> s]      \* traces and queries
Build(s, sub, ok) ==
  IF sub = <<>> THEN [ok |-> ok, st |-> s]
  ELSE LET r == Step(s, Head(sub))
       IN Build(r.st, Tail(sub), ok /\ (IF "ok" \in DOMAIN Head(sub) THEN r.ok = Head(sub).ok ELSE r.ok))
=============================================================================
