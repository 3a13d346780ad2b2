-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded traces against Session.                          *)
(*                                                                         *)
(* The file named by the environment variable TRACES holds a sequence of   *)
(* traces, a trace being a sequence of events.  Every event logs the       *)
(* operation, its arguments, what the library answered (obs) and every     *)
(* object, buffer and file that changed (d), so the state is known after   *)
(* each event: one behaviour per trace, one step per event.  A step takes  *)
(* the operation of Session from the state observed before the event and   *)
(* compares outcome and state after it; each difference is printed as a    *)
(* line <<"VIOL", trace, event, clause>> and the trace goes on from the    *)
(* observed state, so the verdict covers every event of every trace.       *)
(*                                                                         *)
(* Besides the comparison with the specification there are relational      *)
(* clauses that only compare observations with one another:                *)
(*   equiv     events of one group (g) have the same outcome               *)
(*   rt.value  unpacking bytes of an earlier pack event gives its object   *)
(*   rt.bytes  packing that again gives these bytes                        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, FiniteSets

Traces == JsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv   \* print what was expected, too

VARIABLES t,      \* which trace
          l,      \* its next event
          st,     \* state of Session, as observed
          packs,  \* event |-> what it packed, for provenance
          grp     \* group |-> first outcome
vars == <<t, l, st, packs, grp>>

Ev == Traces[t][l]

PackOps == {"pack", "packinto", "packwrite", "serpack", "serpackinto", "serpackwrite"}
SerUnpackOps == {"serunpackfrom", "serunpackread"}
SerMakeOps == {"ser", "seradd", "sermul", "serwbo"}
UnpackOps == {"unpack", "unpackfrom", "unpackread"}

(* --- the observed state after an event -------------------------------------- *)
Over(m, ds) == [j \in DOMAIN m \cup {ds[i].id : i \in 1..Len(ds)} |->
                  IF \E i \in 1..Len(ds) : ds[i].id = j
                  THEN ds[CHOOSE i \in 1..Len(ds) : ds[i].id = j].x ELSE m[j]]
Observed(e, x) ==
  [classes |-> x.classes, sers |-> x.sers, objs |-> Over(st.objs, e.d.objs),
   bufs |-> Over(st.bufs, e.d.bufs), files |-> Over(st.files, e.d.files)]

SameObj(a, b) == a = b \/ (a.c = b.c /\ a.bo = b.bo /\ SameV(ObjV(a.c, a.f), ObjV(b.c, b.f)))
SameMap(Same(_, _), a, b, but) ==
  /\ DOMAIN a \ but = DOMAIN b \ but
  /\ \A i \in DOMAIN a \ but : Same(a[i], b[i])
Same(a, b) == a = b

(* entities an event is about *)
TargetObj(e) == IF e.op \in UnpackOps \cup {"new", "set", "grow"} THEN {e.o}
                ELSE IF e.op = "wbo" THEN {e.r} ELSE {}
TargetBuf(e) == IF e.op \in {"packinto", "serpackinto"} THEN {e.buf} ELSE IF e.op \in {"buf", "poke"} THEN {e.id} ELSE {}
TargetFile(e) == IF e.op \in {"packwrite", "unpackread", "serpackwrite", "serunpackread"} THEN {e.file}
                 ELSE IF e.op \in {"file", "seek"} THEN {e.id} ELSE {}

If(c, s) == IF c THEN {s} ELSE {}

(* --- decisions: the library may ask any number of times, but only about an    *)
(* object that holds the attribute, with what is known at that point            *)
SameAttrs(exp, seen, exact) ==
  /\ \A i \in 1..Len(exp) : \E j \in 1..Len(seen) : seen[j].n = exp[i].n /\ SameV(seen[j].v, exp[i].v)
  /\ exact => Len(seen) = Len(exp)
GoodLog(exp, obs, exact) ==
  \A i \in 1..Len(obs) : obs[i].fac \/ \E j \in 1..Len(exp) :
      exp[j].lbl = obs[i].lbl /\ SameAttrs(exp[j].f, obs[i].seen, exact)

CustLbls == {"#MyInt", "#OtherInt", "#MyFloat", "#MyFlag", "#Even", "#MyBytes"}
(* factories: called exactly once for every value *)
SameCall(x, y) == x.lbl = y.lbl /\ SameV(x.f[1].v, y.f[1].v)
GoodCalls(exp, obs) ==
  LET calls == [i \in 1..Len(obs) |-> [lbl |-> obs[i].lbl, f |-> obs[i].seen, fac |-> obs[i].fac]]
      o == SelectSeq(calls, LAMBDA x : x.fac)
      e == SelectSeq(exp, LAMBDA x : \E i \in 1..Len(o) : o[i].lbl = x.lbl)
      Count(s, x) == Cardinality({i \in 1..Len(s) : SameCall(s[i], x)})
      ncust == Cardinality({i \in 1..Len(exp) : exp[i].lbl \in CustLbls})
  IN /\ Len(o) = ncust
     /\ \A i \in 1..Len(o) : Count(o, o[i]) = Count(e, o[i])

(* --- judging an event -----------------------------------------------------------*)
Refused(e, o) ==   \* acceptance and refusal; o: expected outcome
  IF e.obs.hang THEN {"hang"}
  ELSE IF o.ok THEN If(~e.obs.ok, "rejects")
  ELSE IF o.e = "unspec" THEN {}
  ELSE If(e.obs.ok, "accepts") \cup If(~e.obs.ok /\ o.e = "value" /\ ~e.obs.ve, "kind")

(* nothing but the targets of an event changes *)
Framed(e, post) ==
  If(~SameMap(SameObj, st.objs, post.objs, TargetObj(e)), "frame.objs")
  \cup If(~SameMap(Same, st.bufs, post.bufs, TargetBuf(e)), "frame.bufs")
  \cup If(~SameMap(Same, st.files, post.files, TargetFile(e)), "frame.files")
  \cup If(e.d.classes # <<>>, "frame.classes")

PrefixSame(a, b, n) == Len(b) >= n /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)

JudgePack(e, o, x, post) ==
  LET ok == e.obs.ok /\ o.ok IN
  (IF e.op \in {"pack", "serpack"} THEN If(ok /\ e.obs.b # o.b, "bytes")
   ELSE IF e.op \in {"packinto", "serpackinto"}
   THEN LET pre == st.bufs[e.buf]
            now == post.bufs[e.buf]
        IN If(Len(now) # Len(pre) \/ ~PrefixSame(pre, now, Min2(e.off, Len(pre))), "confined")
           \cup If(ok /\ SubSeq(now, e.off + 1, e.off + o.n) # o.b, "bytes")
           \cup If(ok /\ SubSeq(now, e.off + o.n + 1, Len(now)) # SubSeq(pre, e.off + o.n + 1, Len(pre)), "confined")
   ELSE LET pre == st.files[e.file]
            now == post.files[e.file]
        IN If(~PrefixSame(pre.b, now.b, pre.p), "confined")
           \cup If(ok /\ SubSeq(now.b, pre.p + 1, pre.p + o.n) # o.b, "bytes")
           \cup If(ok /\ SubSeq(now.b, pre.p + o.n + 1, Len(now.b)) # SubSeq(pre.b, pre.p + o.n + 1, Len(pre.b)), "confined")
           \cup If(ok /\ now.p # pre.p + o.n, "position"))
  \cup If(ok /\ e.obs.size # o.n, "size")
  \cup If(ok /\ "log" \in DOMAIN o /\ ~GoodLog(o.log, e.obs.log, TRUE), "decision")

JudgeSerUnpack(e, o, x, post) ==
  LET ok == e.obs.ok /\ o.ok IN
  If(ok /\ ~SameV(LstV(e.obs.vals), LstV(o.vs)), "value")
  \cup (IF e.op = "serunpackread"
        THEN If(post.files[e.file].b # st.files[e.file].b, "confined")
             \cup If(ok /\ post.files[e.file].p # x.files[e.file].p, "position")
        ELSE {})
  \cup If(ok /\ e.obs.size # o.n, "size")

JudgeUnpack(e, o, x, post) ==
  LET ok == e.obs.ok /\ o.ok IN
  If(ok /\ ~(e.o \in DOMAIN post.objs /\ SameObj(post.objs[e.o], x.objs[e.o])), "value")
  \cup (IF e.op = "unpackread"
        THEN If(post.files[e.file].b # st.files[e.file].b, "confined")
             \cup If(ok /\ post.files[e.file].p # x.files[e.file].p, "position")
        ELSE {})
  \cup If(ok /\ e.obs.size # o.n, "size")
  \cup If(ok /\ ~GoodLog(o.log, e.obs.log, e.c # ""), "decision")
  \cup If(ok /\ ~GoodCalls(o.log, e.obs.log), "factory")
  \cup If(ok /\ e.c # "" /\ e.obs.post # 1, "post")
  \cup If(~e.obs.ok /\ e.c # "" /\ e.o \in DOMAIN post.objs, "value")

JudgeOther(e, o, x, post) ==
  LET ok == e.obs.ok /\ o.ok IN
  CASE e.op = "define" -> If(ok /\ e.obs.attrs # o.attrs, "attrs") \cup If(ok /\ e.obs.bo # o.bo, "byteorder")
                           \cup If(ok /\ e.obs.nv # Len(o.attrs), "numvalues")
    [] e.op = "new" -> If(ok /\ ~SameObj(post.objs[e.o], x.objs[e.o]), "value") \cup If(ok /\ e.obs.post # 1, "post")
    [] e.op = "wbo" -> If(ok /\ ~SameObj(post.objs[e.r], x.objs[e.r]), "value")
    [] e.op \in {"set", "grow"} -> If(ok /\ ~SameObj(post.objs[e.o], x.objs[e.o]), "value")
    [] e.op = "eq" -> If(ok /\ ~HasNaN(ValOf(st, e.a)) /\ (e.obs.eq # o.r \/ e.obs.ne # ~o.r), "equality")
    [] e.op \in SerMakeOps -> If(ok /\ e.obs.nv # NumValues(x.sers[e.s]), "numvalues")
    [] e.op = "text" -> If(ok /\ (e.obs.str # o.str \/ e.obs.repr # o.repr), "text")
    [] OTHER -> {}

(* --- relational clauses -----------------------------------------------------------*)
(* the data an unpacking starts at *)
Window(e) ==
  IF e.op \notin UnpackOps THEN <<>>
  ELSE LET d == IF e.op = "unpackread" THEN st.files[e.file].b ELSE st.bufs[e.buf]
           p == CASE e.op = "unpackread" -> st.files[e.file].p [] e.op = "unpackfrom" -> e.off [] OTHER -> 0
       IN SubSeq(d, p + 1, Len(d))
(* n: bytes the specification wants unpacked, -1 if it wants a failure *)
Outcome(e, o, post) ==
  [ok |-> e.obs.ok, w |-> Window(e), n |-> IF o.ok /\ e.op \in UnpackOps THEN o.n ELSE -1,
   size |-> e.obs.size, b |-> e.obs.b,
   f |-> IF e.obs.ok /\ e.op \in UnpackOps THEN post.objs[e.o].f ELSE <<>>]
SameInput(e, first) ==
  LET w == Window(e) IN
  \/ w = first.w
  \/ first.n >= 0 /\ Len(w) >= first.n /\ SubSeq(w, 1, first.n) = SubSeq(first.w, 1, first.n)

Agrees(e, post, first) ==
  SameInput(e, first) =>
  /\ e.obs.ok = first.ok
  /\ first.ok =>
     CASE e.op \in UnpackOps -> /\ SameV(ObjV("", post.objs[e.o].f), ObjV("", first.f))
                                /\ e.op = "unpackread" => post.files[e.file].p - st.files[e.file].p = first.size
       [] e.op = "pack" -> e.obs.b = first.b
       [] e.op = "packinto" -> post.bufs[e.buf] = Splice(st.bufs[e.buf], e.off, first.b)
       [] e.op = "packwrite" -> post.files[e.file].b = Splice(st.files[e.file].b, st.files[e.file].p, first.b)

HasKey(m, i) == i \in DOMAIN m

(* what unpacking must give for an object that was packed: the object up to   *)
(* the documented losses                                                       *)
Norm(rec, v) ==
  LET b == EncRec(rec, v) IN
  IF ~b.ok THEN b ELSE DecRec(rec, b.b, 0)

Relational(e, post) ==
  (IF e.g # "" /\ HasKey(grp, e.g) THEN If(~Agrees(e, post, grp[e.g]), "equiv") ELSE {})
  \cup
  (IF e.op \in UnpackOps /\ e.from # 0 /\ HasKey(packs, e.from)
   THEN LET pk == packs[e.from]
            n == Norm(pk.rec, pk.v)
            d == IF e.op = "unpackread" THEN st.files[e.file].b ELSE st.bufs[e.buf]
            p == CASE e.op = "unpackread" -> st.files[e.file].p [] e.op = "unpackfrom" -> e.off [] OTHER -> 0
        IN IF ~n.ok \/ Len(d) < p + Len(pk.b) \/ SubSeq(d, p + 1, p + Len(pk.b)) # pk.b THEN {}   \* it may have been overwritten
           ELSE If(~e.obs.ok \/ ~SameV(ObjV("", post.objs[e.o].f), ObjV("", n.v.f))
                   \/ post.objs[e.o].c # pk.v.cls, "rt.value")
   ELSE {})
  \cup
  (IF e.op = "pack" /\ e.from # 0 /\ HasKey(packs, e.from)
   THEN LET pk == packs[e.from]
           n == Norm(pk.rec, pk.v)
           again == IF n.ok THEN EncRec(pk.rec, n.v) ELSE n
       IN IF ~again.ok THEN {}
          \* a value cut short by its own terminator packs to less
          ELSE IF again.b # EncRec(pk.rec, pk.v).b THEN {}
          ELSE If(~e.obs.ok \/ e.obs.b # pk.b, "rt.bytes")
  ELSE {})

(* --- behaviours ---------------------------------------------------------------------*)
Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = Empty
        /\ packs = <<>>
        /\ grp = <<>>

Forget ==   \* entities the rest of the trace is not about
  /\ l <= Len(Traces[t]) /\ Ev.op = "drop"
  /\ st' = OpDrop(st, Range(Ev.ids))
  /\ l' = l + 1
  /\ UNCHANGED <<t, packs, grp>>

Step ==
  /\ l <= Len(Traces[t]) /\ Ev.op # "drop"
  /\ LET e == Ev
         r == Op(st, e)
         post == Observed(e, r.st)
         bad == Refused(e, r.out)
                \cup Framed(e, post)
                \cup (IF e.op \in PackOps THEN JudgePack(e, r.out, r.st, post)
                      ELSE IF e.op \in UnpackOps THEN JudgeUnpack(e, r.out, r.st, post)
                      ELSE IF e.op \in SerUnpackOps THEN JudgeSerUnpack(e, r.out, r.st, post)
                      ELSE JudgeOther(e, r.out, r.st, post))
                \cup Relational(e, post)
     IN /\ \A c \in bad : PrintT(<<"VIOL", t, l, c>>)
        /\ (bad # {} /\ Explain) => PrintT(<<"EXPECTED", r.out>>)
        /\ st' = post
        /\ packs' = IF e.op = "pack" /\ e.obs.ok
                    THEN Put(packs, l, [b |-> e.obs.b, v |-> ValOf(st, e.o), rec |-> RecOfObj(st, e.o)])
                    ELSE packs
        /\ grp' = IF e.g # "" /\ ~HasKey(grp, e.g) THEN Put(grp, e.g, Outcome(e, r.out, post)) ELSE grp
        \* nothing more can be said about a trace whose classes are not the specified ones
        /\ l' = IF \/ bad \cap {"rejects", "accepts", "attrs"} # {} /\ e.op \in {"define", "new"}
                   \/ e.op = "define" /\ e.obs.ok /\ ~r.out.ok
                THEN Len(Traces[t]) + 1 ELSE l + 1
        /\ (l' > l + 1 => PrintT(<<"CUT", t, l>>))
  /\ t' = t

Next == Step \/ Forget
Spec == Init /\ [][Next]_vars
=============================================================================
