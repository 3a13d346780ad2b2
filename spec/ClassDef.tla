------------------------------ MODULE ClassDef ------------------------------
(***************************************************************************)
(* What a class definition means: which attributes are serialized, in what *)
(* order, as what type - over inheritance, redefinition, removal, pads,    *)
(* class variables, generics and their specialization - and which          *)
(* definitions are refused.                                                *)
(*                                                                         *)
(* Hints are the types of Wire, plus                                       *)
(*   nil        None, removes an attribute                                 *)
(*   plain      a hint that is not serializable (int, str, ...)            *)
(*   cvar       ClassVar[...]                                              *)
(*   tv n       a type variable                                            *)
(*   netm       the NET marker (argument for char[T])                      *)
(*   ref n      a class                                                    *)
(*   inst n a   a generic class specialized with a                         *)
(*   bad src    something written like a hint of the library that is none  *)
(* and type variables may stand for a format (dchar f, arr cf / sf).       *)
(*                                                                         *)
(* A definition: [n, bases, gp, bo, mode, init, own] with bases a sequence *)
(* of [n, a] (a = <<>>: not specialized), gp the Generic[...] parameters,  *)
(* own a sequence of [n, h].                                               *)
(* A class: [n, bo, params, hints, rec] with rec the resolved type.        *)
(***************************************************************************)
EXTENDS Wire

Formats == {"bool8", "int8", "uint8", "int16", "uint16", "int32", "uint32",
            "int64", "uint64", "float16", "float32", "float64"}
NoFormat == "?"      \* what is put where a format belongs, and is not one
IsTV(f) == f # "" /\ f \notin Formats \cup {NoFormat}

(* --- type variables ------------------------------------------------------ *)
RECURSIVE TVs(_)
TVs(h) ==
  CASE h.k = "tv" -> <<h.n>>
    [] h.k = "dchar" -> IF IsTV(h.f) THEN <<h.f>> ELSE <<>>
    [] h.k = "uni" -> TVs(h.t)
    [] h.k = "arr" -> (IF IsTV(h.cf) THEN <<h.cf>> ELSE <<>>) \o (IF IsTV(h.sf) THEN <<h.sf>> ELSE <<>>) \o TVs(h.t)
    [] h.k = "tup" -> FlattenSeq([i \in 1..Len(h.e) |-> TVs(h.e[i])])
    [] h.k = "inst" -> FlattenSeq([i \in 1..Len(h.a) |-> TVs(h.a[i])])
    [] OTHER -> <<>>
Generic(h) == TVs(h) # <<>>

(* map: sequence of [n, t] *)
Bound(map, n) == \E i \in 1..Len(map) : map[i].n = n
Lookup(map, n) == map[CHOOSE i \in 1..Len(map) : map[i].n = n].t
SubstF(f, map) == IF IsTV(f) /\ Bound(map, f)
                  THEN LET a == Lookup(map, f) IN IF a.k = "num" THEN a.f ELSE IF a.k = "tv" THEN a.n ELSE NoFormat
                  ELSE f
RECURSIVE Subst(_, _)
Subst(h, map) ==
  CASE h.k = "tv" -> IF Bound(map, h.n) THEN Lookup(map, h.n) ELSE h
    [] h.k = "dchar" -> IF IsTV(h.f) /\ Bound(map, h.f) /\ Lookup(map, h.f).k = "netm"
                        THEN [k |-> "net", z |-> 0] ELSE [h EXCEPT !.f = SubstF(@, map)]
    [] h.k = "uni" -> [h EXCEPT !.t = Subst(@, map)]
    [] h.k = "arr" -> [h EXCEPT !.cf = SubstF(@, map), !.sf = SubstF(@, map), !.t = Subst(@, map)]
    [] h.k = "tup" -> [h EXCEPT !.e = [i \in 1..Len(@) |-> Subst(@[i], map)]]
    [] h.k = "inst" -> [h EXCEPT !.a = [i \in 1..Len(@) |-> Subst(@[i], map)]]
    [] OTHER -> h

Binding(ps, as) == [i \in 1..Min2(Len(ps), Len(as)) |-> [n |-> ps[i], t |-> as[i]]]

RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE <<s[1]>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # s[1]))

(* --- hints to types -------------------------------------------------------*)
RECURSIVE Resolve(_, _), Serializable(_), RecOf(_, _, _, _)

(* whether a hint denotes something serialized *)
Serializable(h) ==
  /\ h.k \notin {"nil", "plain", "cvar", "tv", "netm"}
  /\ ~Generic(h)
  /\ h.k = "tup" => \A i \in 1..Len(h.e) : Serializable(h.e[i])

Resolve(h, classes) ==
  CASE h.k = "ref" -> classes[h.n].rec
    [] h.k = "inst" -> LET g == classes[h.n] IN
                       RecOf(g.n, g.bo, [i \in 1..Len(g.hints) |->
                          [n |-> g.hints[i].n, h |-> Subst(g.hints[i].h, Binding(g.params, h.a))]], classes)
    [] h.k \in {"arr", "cond", "cust"} -> [h EXCEPT !.t = Resolve(@, classes)]
    [] h.k = "tup" -> [h EXCEPT !.e = [i \in 1..Len(@) |-> Resolve(@[i], classes)]]
    [] h.k = "lb" -> [h EXCEPT !.m = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = Resolve(@, classes)]],
                               !.df = [i \in 1..Len(@) |-> Resolve(@[i], classes)]]
    [] h.k = "la" -> [h EXCEPT !.m = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = Resolve(@, classes)]],
                               !.df = [i \in 1..Len(@) |-> Resolve(@[i], classes)],
                               !.r = Resolve(@, classes)]
    [] OTHER -> h

RecOf(n, bo, hints, classes) ==
  LET used == SelectSeq(hints, LAMBDA x : Serializable(x.h)) IN
  [k |-> "rec", cls |-> n, bo |-> bo, own |-> bo,
   fs |-> [i \in 1..Len(used) |-> [n |-> used[i].n, t |-> Resolve(used[i].h, classes)]]]

(* --- attributes that take the rest of the data ---------------------------- *)
RECURSIVE Final(_)
Final(t) ==
  CASE t.k = "cchar" -> TRUE
    [] t.k \in {"uni", "cond"} -> Final(t.t)
    [] t.k = "tup" -> \E i \in 1..Len(t.e) : Final(t.e[i])
    [] t.k = "rec" -> \E i \in 1..Len(t.fs) : Final(t.fs[i].t)
    [] t.k \in {"lb", "la"} -> (\E i \in 1..Len(t.m) : Final(t.m[i].t)) \/ (t.df # <<>> /\ Final(t.df[1]))
    [] OTHER -> FALSE

(* rest-of-data somewhere it may not be *)
RECURSIVE BadFinal(_)
BadFinal(t) ==
  CASE t.k = "arr" -> Final(t.t) \/ BadFinal(t.t)
    [] t.k = "tup" -> \/ \E i \in 1..(Len(t.e) - 1) : Final(t.e[i])
                      \/ \E i \in 1..Len(t.e) : BadFinal(t.e[i])
    [] t.k = "cond" -> BadFinal(t.t)
    [] t.k \in {"lb", "la"} -> (\E i \in 1..Len(t.m) : BadFinal(t.m[i].t)) \/ (t.df # <<>> /\ BadFinal(t.df[1]))
    [] t.k = "rec" -> \/ \E i \in 1..(Len(t.fs) - 1) : Final(t.fs[i].t)
                      \/ \E i \in 1..Len(t.fs) : BadFinal(t.fs[i].t)
    [] OTHER -> FALSE

(* --- definitions ------------------------------------------------------------*)
PadHint(h) == h.k = "pad" \/ (h.k = "cond" /\ h.t.k = "pad")

(* own hints over inherited ones: redefined in place, new ones appended, pads  *)
(* named "_" never redefine anything                                           *)
Override(hints, own) ==
  FoldLeft(LAMBDA a, x :
      IF x.n = "_" /\ PadHint(x.h) THEN Append(a, [n |-> "#pad", h |-> x.h])
      ELSE IF \E i \in 1..Len(a) : a[i].n = x.n
      THEN [i \in 1..Len(a) |-> IF a[i].n = x.n THEN x ELSE a[i]]
      ELSE Append(a, x), hints, own)

BaseHints(b, classes) ==
  LET g == classes[b.n] IN
  IF b.a = <<>> THEN g.hints
  ELSE [i \in 1..Len(g.hints) |-> [n |-> g.hints[i].n, h |-> Subst(g.hints[i].h, Binding(g.params, b.a))]]

(* hints that are refused, wherever they are                                   *)
Lengths == {"uint8", "uint16", "uint32", "uint64"}
Misformat(f) == f \notin Lengths /\ ~IsTV(f)
Item(t) == Serializable(t) \/ Generic(t)
RECURSIVE Ill(_, _)
Ill(h, classes) ==
  CASE h.k = "bad" -> TRUE
    [] h.k \in {"char", "pad", "pascal"} -> h.n < 0
    [] h.k = "dchar" -> Misformat(h.f)
    [] h.k = "uni" -> Ill(h.t, classes)
    [] h.k = "arr" -> \/ IF h.cf = "" THEN h.n < 0 ELSE Misformat(h.cf)
                      \/ h.sf # "" /\ Misformat(h.sf)
                      \/ ~Item(h.t) \/ Ill(h.t, classes)
    [] h.k = "tup" -> \E i \in 1..Len(h.e) : Ill(h.e[i], classes)
    [] h.k = "inst" -> \/ \E i \in 1..Len(h.a) : Ill(h.a[i], classes)
                       \/ LET g == classes[h.n]
                              m == Binding(g.params, h.a) IN
                          \E i \in 1..Len(g.hints) : Ill(Subst(g.hints[i].h, m), classes)
    \* one value of a basic type
    [] h.k = "cust" -> h.t.k \notin {"num", "char", "pascal", "cust"} \/ Ill(h.t, classes)
    \* something serialized, and a default for every value
    [] h.k = "cond" -> \/ ~Serializable(h.t) \/ Ill(h.t, classes)
                       \/ Len(h.dv) # IF PadHint(h) THEN 0 ELSE 1
    \* alternatives of one value each
    [] h.k \in {"lb", "la"} ->
         LET alts == [i \in 1..Len(h.m) |-> h.m[i].t] \o h.df IN
         \/ \E i \in 1..Len(alts) : ~Serializable(alts[i]) \/ PadHint(alts[i]) \/ Ill(alts[i], classes)
         \/ h.k = "la" /\ (~Serializable(h.r) \/ Ill(h.r, classes))
    [] OTHER -> FALSE

Define(c, classes) ==
  IF Len(c.bases) > 1 THEN Fail("any")
  ELSE IF \E i \in 1..Len(c.own) : Ill(c.own[i].h, classes) THEN Fail("any")
  ELSE IF \E i \in 1..Len(c.bases) : \E j \in 1..Len(c.bases[i].a) : Ill(c.bases[i].a[j], classes) THEN Fail("any")
  ELSE IF Len(c.bases) = 1 /\ c.mode = "strict" /\ classes[c.bases[1].n].bo # c.bo
  THEN Fail(IF \E j \in 1..Len(c.bases[1].a) : TRUE THEN "any" ELSE "value")
  ELSE LET hints == Override(IF c.bases = <<>> THEN <<>> ELSE BaseHints(c.bases[1], classes), c.own)
           params == IF c.gp # <<>> THEN c.gp
                     ELSE IF c.bases = <<>> THEN <<>>
                     ELSE Uniq(FlattenSeq([i \in 1..Len(c.bases[1].a) |-> TVs(c.bases[1].a[i])]))
           rec == RecOf(c.n, c.bo, hints, classes)
           \* specialized to something that would not be accepted by itself
           bad == c.bases # <<>> /\ c.bases[1].a # <<>>
                  /\ BadFinal(RecOf("", c.bo, BaseHints(c.bases[1], classes), classes))
           ill == \E i \in 1..Len(hints) : Ill(hints[i].h, classes)
           illbase == c.bases # <<>> /\ LET bh == BaseHints(c.bases[1], classes) IN
                                        \E i \in 1..Len(bh) : Ill(bh[i].h, classes)
       IN IF illbase /\ ~ill THEN Fail("unspec")
          ELSE IF ill THEN Fail("any")
          ELSE IF bad /\ ~BadFinal(rec) THEN Fail("unspec")
          ELSE IF BadFinal(rec) THEN Fail("any")
          ELSE [ok |-> TRUE,
                cl |-> [n |-> c.n, bo |-> c.bo, params |-> params, hints |-> hints, rec |-> rec]]

AttrFs(rec) == SelectSeq(rec.fs, LAMBDA x : ~IsPad(x.t))
AttrNames(rec) == LET fs == AttrFs(rec) IN [i \in 1..Len(fs) |-> fs[i].n]
=============================================================================
