------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The system: classes, objects, caller owned buffers and files, and the   *)
(* public operations on them.  Every operation is an operator from a state *)
(* (a record of the four maps) and its arguments to                        *)
(*     [st |-> state after, out |-> outcome]                               *)
(* so that the same definitions drive the exhaustive model (MC*.tla), the  *)
(* generators (Gen*.tla) and the validation of recorded traces (Trace.tla) *)
(*                                                                         *)
(*   classes  name |-> class (see ClassDef)                                *)
(*   objs     id |-> [c: class name, bo: byte order, f: attributes]        *)
(*   bufs     id |-> bytes                                                 *)
(*   files    id |-> [b: bytes, p: position]                               *)
(*   sers     id |-> sequence of parts [t: type, bo]                       *)
(*                                                                         *)
(* Outcomes: [ok |-> TRUE, ...] with b: bytes written, v: value, n: number *)
(* of bytes used, log: decisions taken; or [ok |-> FALSE, e |-> kind].     *)
(* A failed operation leaves what it was writing to (the target object of  *)
(* an in place unpack, the part of a buffer from the offset on, the file   *)
(* after its position) unspecified; nothing else is affected.              *)
(***************************************************************************)
EXTENDS ClassDef

Put(m, i, x) == [j \in DOMAIN m \cup {i} |-> IF j = i THEN x ELSE m[j]]

(* the class of an object, with the byte order of the object *)
RecOfObj(st, o) == [st.classes[st.objs[o].c].rec EXCEPT !.bo = st.objs[o].bo]
ValOf(st, o) == ObjV(st.objs[o].c, st.objs[o].f)

OpDefine(st, c) ==
  LET r == Define(c, st.classes) IN
  IF r.ok THEN [st |-> [st EXCEPT !.classes = Put(@, c.n, r.cl)],
                out |-> [ok |-> TRUE, attrs |-> AttrNames(r.cl.rec), bo |-> c.bo]]
  ELSE [st |-> st, out |-> r]

(* construction: by position, or by name; a: sequence of values *)
OpNew(st, o, c, a) ==
  LET fs == AttrFs(st.classes[c].rec) IN
  IF Len(a) # Len(fs) THEN [st |-> st, out |-> Fail("any")]
  ELSE [st |-> [st EXCEPT !.objs = Put(@, o, [c |-> c, bo |-> st.classes[c].bo,
                   f |-> [i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> a[i]]]])],
        out |-> [ok |-> TRUE, post |-> 1]]

SetF(f, n, v) == [i \in 1..Len(f) |-> IF f[i].n = n THEN [n |-> n, v |-> v] ELSE f[i]]
OpSet(st, o, n, v) == [st |-> [st EXCEPT !.objs[o].f = SetF(@, n, v)], out |-> [ok |-> TRUE]]
(* an attribute that is not serialized: none of the record's business *)
OpMark(st, o, n, v) == [st |-> st, out |-> [ok |-> TRUE]]
(* append to a list attribute in place *)
OpGrow(st, o, n, v) ==
  [st |-> [st EXCEPT !.objs[o].f = SetF(@, n, LstV(Append(GetAttr(@, n).i, v)))], out |-> [ok |-> TRUE]]

(* --- packing ---------------------------------------------------------------*)
Packed(st, o) ==
  LET r == EncRec(RecOfObj(st, o), ValOf(st, o)) IN
  IF r.ok THEN [ok |-> TRUE, b |-> r.b, n |-> Len(r.b), log |-> r.log] ELSE r
OpPack(st, o) == [st |-> st, out |-> Packed(st, o)]

Splice(buf, off, b) == SubSeq(buf, 1, off) \o b \o SubSeq(buf, off + Len(b) + 1, Len(buf))
(* what is wrong with the value may only show after running out of room *)
NoRoom(st, buf, off, r) == IF r.e = "value" /\ off + r.at > Len(st.bufs[buf]) THEN Fail("any") ELSE r
OpPackInto(st, o, buf, off) ==
  LET r == Packed(st, o) IN
  IF ~r.ok THEN [st |-> st, out |-> NoRoom(st, buf, off, r)]
  ELSE IF off + Len(r.b) > Len(st.bufs[buf])
  THEN [st |-> st, out |-> Fail(IF r.b = <<>> THEN "unspec" ELSE "any")]
  ELSE [st |-> [st EXCEPT !.bufs[buf] = Splice(@, off, r.b)], out |-> r]

OpPackWrite(st, o, file) ==
  LET r == Packed(st, o)
      f == st.files[file] IN
  IF ~r.ok THEN [st |-> st, out |-> r]
  ELSE [st |-> [st EXCEPT !.files[file] = [b |-> Splice(f.b, f.p, r.b), p |-> f.p + Len(r.b)]], out |-> r]

(* --- unpacking -------------------------------------------------------------- *)
(* rec: the (class) type to unpack, from data d at p *)
Unpacked(rec, d, p) ==
  LET r == DecRec(rec, d, p) IN
  IF r.ok THEN [ok |-> TRUE, v |-> r.v, n |-> r.p - p, log |-> r.log] ELSE r

(* a new object o of class c, or (c = "") in place into the object o *)
Target(st, o, c) == IF c = "" THEN RecOfObj(st, o) ELSE st.classes[c].rec
Store(st, o, c, v) ==
  IF c = "" THEN [st EXCEPT !.objs[o].f = v.f]
  ELSE [st EXCEPT !.objs = Put(@, o, [c |-> c, bo |-> st.classes[c].bo, f |-> v.f])]

(* in place, decisions still find earlier values of attributes yet to come: not specified *)
InPlace(c, r) == IF c = "" /\ ~r.ok /\ r.e = "miss" THEN Fail("unspec") ELSE r
OpUnpackFrom(st, o, c, buf, off) ==
  LET r == InPlace(c, Unpacked(Target(st, o, c), st.bufs[buf], off)) IN
  IF r.ok THEN [st |-> Store(st, o, c, r.v), out |-> r] ELSE [st |-> st, out |-> r]
OpUnpack(st, o, c, buf) == OpUnpackFrom(st, o, c, buf, 0)
OpUnpackRead(st, o, c, file) ==
  LET f == st.files[file]
      r == InPlace(c, Unpacked(Target(st, o, c), f.b, f.p)) IN
  IF r.ok THEN [st |-> [Store(st, o, c, r.v) EXCEPT !.files[file].p = f.p + r.n], out |-> r]
  ELSE [st |-> st, out |-> r]

(* --- other operations on objects ---------------------------------------------*)
OpWbo(st, o, r, bo) ==
  [st |-> [st EXCEPT !.objs = Put(@, r, [st.objs[o] EXCEPT !.bo = bo])], out |-> [ok |-> TRUE]]
OpEq(st, a, b) ==
  [st |-> st, out |-> [ok |-> TRUE, r |-> st.objs[a].c = st.objs[b].c /\ PyEq(ValOf(st, a), ValOf(st, b))]]
(* text form, given the text of every value *)
Join(ns, vs) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o ns[i] \o "=" \o vs[i],
                         "", [i \in 1..Len(ns) |-> i])
OpText(st, o, vs) ==
  LET t == st.objs[o].c \o "(" \o Join(AttrNames(st.classes[st.objs[o].c].rec), vs) \o ")" IN
  [st |-> st, out |-> [ok |-> TRUE, str |-> t, repr |-> "<" \o t \o ">"]]

(* --- the caller's own doings ---------------------------------------------------*)
OpBuf(st, id, b) == [st |-> [st EXCEPT !.bufs = Put(@, id, b)], out |-> [ok |-> TRUE]]
OpPoke(st, id, off, x) == [st |-> [st EXCEPT !.bufs[id][off + 1] = x], out |-> [ok |-> TRUE]]
OpFile(st, id, b, p) == [st |-> [st EXCEPT !.files = Put(@, id, [b |-> b, p |-> p])], out |-> [ok |-> TRUE]]
OpSeek(st, id, p) == [st |-> [st EXCEPT !.files[id].p = p], out |-> [ok |-> TRUE]]

OpDrop(st, ids) == LET Without(m) == [j \in DOMAIN m \ ids |-> m[j]] IN
                   [st EXCEPT !.objs = Without(@), !.bufs = Without(@), !.files = Without(@)]

(* --- serializers used on their own -------------------------------------------*)
NoCtx == [c |-> [k |-> "none", z |-> 0], f |-> <<>>]
FinalPart(ps) == \E i \in 1..Len(ps) : Final(ps[i].t)
OpSer(st, s, ts, bo) ==
  LET ps == [i \in 1..Len(ts) |-> [t |-> Resolve(ts[i], st.classes), bo |-> bo]] IN
  IF \E i \in 1..Len(ts) : BadFinal(ps[i].t) \/ (i < Len(ts) /\ Final(ps[i].t))
  THEN [st |-> st, out |-> Fail("any")]
  ELSE [st |-> [st EXCEPT !.sers = Put(@, s, ps)], out |-> [ok |-> TRUE]]
OpSerAdd(st, r, a, b) ==
  LET pa == st.sers[a]
      pb == st.sers[b] IN
  IF pb # <<>> /\ FinalPart(pa) THEN [st |-> st, out |-> Fail("any")]
  ELSE IF /\ pa # <<>> /\ pb # <<>> /\ Basic(pa[Len(pa)].t) /\ Basic(pb[1].t)
          /\ pa[Len(pa)].bo # pb[1].bo
  THEN [st |-> st, out |-> Fail("any")]
  ELSE [st |-> [st EXCEPT !.sers = Put(@, r, pa \o pb)], out |-> [ok |-> TRUE]]
(* a times n; fold: strings become one longer string instead *)
OpSerMul(st, r, a, n, fold) ==
  LET pa == st.sers[a] IN
  IF n < 0 THEN [st |-> st, out |-> Fail("any")]
  ELSE [st |-> [st EXCEPT !.sers = Put(@, r,
          IF fold /\ pa[1].t.k \in {"char", "pascal", "pad"}
          THEN <<[pa[1] EXCEPT !.t.n = @ * n]>>
          ELSE FlattenSeq([i \in 1..n |-> pa]))],
        out |-> [ok |-> TRUE]]
OpSerWbo(st, r, a, bo) ==
  [st |-> [st EXCEPT !.sers = Put(@, r, [i \in 1..Len(st.sers[a]) |-> [st.sers[a][i] EXCEPT !.bo = bo]])],
   out |-> [ok |-> TRUE]]

RECURSIVE EncParts(_, _), DecParts(_, _, _)
Run(ps) ==   \* length of the first run of parts of one byte order
  LET ends == {i \in 1..Len(ps) : ps[i].bo # ps[1].bo} IN
  IF ends = {} THEN Len(ps) ELSE (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
EncParts(ps, vs) ==
  IF ps = <<>> THEN EOk(<<>>)
  ELSE LET n == Run(ps)
           a == EncSeq([i \in 1..n |-> ps[i].t], SubSeq(vs, 1, n), ps[1].bo, NoCtx)
           b == EncParts(SubSeq(ps, n + 1, Len(ps)), SubSeq(vs, n + 1, Len(vs)))
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE EOk(a.b \o b.b)
DecParts(ps, d, p) ==
  IF ps = <<>> THEN [ok |-> TRUE, vs |-> <<>>, p |-> p]
  ELSE LET n == Run(ps)
           a == DecSeq([i \in 1..n |-> ps[i].t], <<>>, d, p, ps[1].bo, NoCtx)
           b == DecParts(SubSeq(ps, n + 1, Len(ps)), d, a.p)
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE [ok |-> TRUE, vs |-> a.vs \o b.vs, p |-> b.p]

NumValues(ps) == Len(SelectSeq(ps, LAMBDA x : x.t.k # "pad"))
(* a value for every part, nothing for the pads *)
Spread(ps, vs) == [i \in 1..Len(ps) |-> IF ps[i].t.k = "pad" THEN NoneV ELSE vs[NumValues(SubSeq(ps, 1, i))]]
SerPacked(st, s, vs) ==
  LET ps == st.sers[s] IN
  \* a lone serializer of one value need not look at further ones
  IF Len(vs) # NumValues(ps)
  THEN Fail(IF ps = <<>> \/ (Len(ps) = 1 /\ ~Basic(ps[1].t) /\ Len(vs) > 1) THEN "unspec" ELSE "any")
  ELSE LET r == EncParts(ps, Spread(ps, vs)) IN
       IF r.ok THEN [ok |-> TRUE, b |-> r.b, n |-> Len(r.b)] ELSE r
OpSerPack(st, s, vs) == [st |-> st, out |-> SerPacked(st, s, vs)]
OpSerPackInto(st, s, vs, buf, off) ==
  LET r == SerPacked(st, s, vs) IN
  IF ~r.ok THEN [st |-> st, out |-> NoRoom(st, buf, off, r)]
  ELSE IF off + Len(r.b) > Len(st.bufs[buf])
  THEN [st |-> st, out |-> Fail(IF r.b = <<>> THEN "unspec" ELSE "any")]
  ELSE [st |-> [st EXCEPT !.bufs[buf] = Splice(@, off, r.b)], out |-> r]
OpSerPackWrite(st, s, vs, file) ==
  LET r == SerPacked(st, s, vs)
      f == st.files[file] IN
  IF ~r.ok THEN [st |-> st, out |-> r]
  ELSE [st |-> [st EXCEPT !.files[file] = [b |-> Splice(f.b, f.p, r.b), p |-> f.p + Len(r.b)]], out |-> r]
SerUnpacked(st, s, d, p) ==
  LET r == DecParts(st.sers[s], d, p) IN
  IF r.ok THEN [ok |-> TRUE, vs |-> r.vs, n |-> r.p - p] ELSE r
OpSerUnpackFrom(st, s, buf, off) == [st |-> st, out |-> SerUnpacked(st, s, st.bufs[buf], off)]
OpSerUnpackRead(st, s, file) ==
  LET f == st.files[file]
      r == SerUnpacked(st, s, f.b, f.p) IN
  [st |-> IF r.ok THEN [st EXCEPT !.files[file].p = f.p + r.n] ELSE st, out |-> r]

(* --- an operation with its arguments, as a record --------------------------- *)
Op(st, e) ==
  CASE e.op = "define"     -> OpDefine(st, e.c)
    [] e.op = "new"        -> OpNew(st, e.o, e.c, e.a)
    [] e.op = "set"        -> OpSet(st, e.o, e.n, e.v)
    [] e.op = "mark"       -> OpMark(st, e.o, e.n, e.v)
    [] e.op = "grow"       -> OpGrow(st, e.o, e.n, e.v)
    [] e.op = "pack"       -> OpPack(st, e.o)
    [] e.op = "packinto"   -> OpPackInto(st, e.o, e.buf, e.off)
    [] e.op = "packwrite"  -> OpPackWrite(st, e.o, e.file)
    [] e.op = "unpack"     -> OpUnpack(st, e.o, e.c, e.buf)
    [] e.op = "unpackfrom" -> OpUnpackFrom(st, e.o, e.c, e.buf, e.off)
    [] e.op = "unpackread" -> OpUnpackRead(st, e.o, e.c, e.file)
    [] e.op = "wbo"        -> OpWbo(st, e.o, e.r, e.bo)
    [] e.op = "eq"         -> OpEq(st, e.a, e.b)
    [] e.op = "text"       -> OpText(st, e.o, e.vs)
    [] e.op = "buf"        -> OpBuf(st, e.id, e.b)
    [] e.op = "poke"       -> OpPoke(st, e.id, e.off, e.x)
    [] e.op = "file"       -> OpFile(st, e.id, e.b, e.p)
    [] e.op = "seek"       -> OpSeek(st, e.id, e.p)
    [] e.op = "ser"        -> OpSer(st, e.s, e.ts, e.bo)
    [] e.op = "seradd"     -> OpSerAdd(st, e.s, e.sa, e.sb)
    [] e.op = "sermul"     -> OpSerMul(st, e.s, e.sa, e.n, e.fold)
    [] e.op = "serwbo"     -> OpSerWbo(st, e.s, e.sa, e.bo)
    [] e.op = "serpack"       -> OpSerPack(st, e.s, e.a)
    [] e.op = "serpackinto"   -> OpSerPackInto(st, e.s, e.a, e.buf, e.off)
    [] e.op = "serpackwrite"  -> OpSerPackWrite(st, e.s, e.a, e.file)
    [] e.op = "serunpackfrom" -> OpSerUnpackFrom(st, e.s, e.buf, e.off)
    [] e.op = "serunpackread" -> OpSerUnpackRead(st, e.s, e.file)

Empty == [classes |-> <<>>, objs |-> <<>>, bufs |-> <<>>, files |-> <<>>, sers |-> <<>>]
=============================================================================
