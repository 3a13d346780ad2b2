------------------------------ MODULE MCClass ------------------------------
(***************************************************************************)
(* Exhaustive model of class definitions: every sequence of definitions of *)
(* a small universe, each step one class built on those before it.         *)
(*                                                                         *)
(*   "inherit"  a class, a subclass of it, a subclass of either            *)
(*   "generic"  a generic class, a generic subclass that keeps, renames,   *)
(*              merges or replaces parameters, a full specialization of it *)
(*   "nested"   generics using generics                                    *)
(*   "rest"     where attributes taking the rest of the data may be        *)
(*   "decl"     hints that are none, anywhere in classes and subclasses    *)
(*   "gdecl"    generic classes specialized with what does not fit         *)
(*                                                                         *)
(* Checked of every step: the laws of the meaning of a definition below.   *)
(* Every complete sequence is printed, its classes are defined with the    *)
(* library, and records of each are packed and unpacked.                   *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Universe, Size1, Size2, Size3      \* the most attributes of each of the classes
VARIABLES st, hist
vars == <<st, hist>>

Num(f) == [k |-> "num", f |-> f]
N(n) == [k |-> "int", neg |-> FALSE, mag |-> LimbsOf(n)]
DChar(f) == [k |-> "dchar", f |-> f]
Uni(t, e) == [k |-> "uni", t |-> t, enc |-> e]
Rest == [k |-> "cchar", z |-> 0]
Pad(n) == [k |-> "pad", n |-> n]
Char(n) == [k |-> "char", n |-> n]
Arr(cf, n, sf, t) == [k |-> "arr", cf |-> cf, n |-> n, sf |-> sf, t |-> t]
TupT(e) == [k |-> "tup", e |-> e]
Ref(n) == [k |-> "ref", n |-> n]
Inst(n, a) == [k |-> "inst", n |-> n, a |-> a]
TV(n) == [k |-> "tv", n |-> n]
Attr(n) == [x |-> "attr", n |-> n]
Ge(x, c) == [x |-> "ge", a |-> x, c |-> c]
Lb(d, m, df, q) == [k |-> "lb", d |-> d, m |-> m, df |-> df, lbl |-> q]
Alt(k, t) == [key |-> k, t |-> t]
Cond(t, d, dv, q) == [k |-> "cond", t |-> t, d |-> d, dv |-> dv, lbl |-> q]
Nil == [k |-> "nil"]
Plain == [k |-> "plain"]
CVar == [k |-> "cvar"]
F(n, h) == [n |-> n, h |-> h]

Cl(n, bases, gp, bo, mode, own) ==
  [n |-> n, bases |-> bases, gp |-> gp, bo |-> bo, mode |-> mode, init |-> TRUE, own |-> own]
On(n, a) == <<[n |-> n, a |-> a]>>

(* bodies: no name twice, but for pads *)
Names(b) == {b[i].n : i \in 1..Len(b)} \ {"_"}
Fresh(b, x) == x.n = "_" \/ x.n \notin Names(b)
RECURSIVE Bodies(_, _)
Bodies(cand, n) == IF n = 0 THEN {<<>>}
                   ELSE LET s == Bodies(cand, n - 1) IN
                        s \cup {Append(b, x) : b \in s, x \in cand}
Bodied(cand, n) == {b \in Bodies(cand, n) : \A i \in 1..Len(b) : \A j \in 1..Len(b) : i < j /\ b[i].n = b[j].n => b[i].n = "_"}
Full(cand, n) == {b \in Bodied(cand, n) : b # <<>>}

(* --- "inherit" ----------------------------------------------------------------- *)
C0 == {F("a", Num("uint8")), F("a", DChar("uint16")), F("b", Num("uint32")), F("c", Plain), F("_", Pad(1)), F("d", CVar)}
C1 == {F("a", Num("uint16")), F("a", Nil), F("a", Plain), F("b", CVar), F("b", Char(3)), F("c", Num("int8")), F("n", Num("uint64")),
       F("_", Pad(2)), F("d", Num("uint16"))}
C2 == {F("a", Num("uint32")), F("b", Nil), F("n", Nil), F("c", Plain), F("z", Uni(DChar("uint8"), "utf8")), F("_", Pad(3))}
Orders == {<<"<", "strict">>, <<">", "strict">>, <<">", "override">>}
InheritDefs ==
  CASE Len(hist) = 0 -> {Cl("A", <<>>, <<>>, "<", "strict", b) : b \in Full(C0, Size1)}
    [] Len(hist) = 1 -> {Cl("B", On("A", <<>>), <<>>, o[1], o[2], b) : b \in Bodied(C1, Size2), o \in Orders}
    [] Len(hist) = 2 -> {Cl("C", On(x, <<>>), <<>>, o[1], o[2], b) : b \in Bodied(C2, Size3), x \in DOMAIN st.classes,
                                                                     o \in {<<"<", "strict">>, <<">", "strict">>, <<"<", "override">>}}

(* --- "generic" -------------------------------------------------------------------- *)
(* T is used as a type, U as the format of a count or size too *)
T == TV("T")
G1 == {F("a", T), F("b", Arr("uint8", -1, "", T)), F("b", TupT(<<T, Num("uint16")>>)), F("c", DChar("U")), F("a", Arr("U", -1, "", Num("int16"))),
       F("c", Arr("U", -1, "U", T)), F("d", Arr("", 2, "U", Num("uint8"))), F("d", Uni(DChar("U"), "utf16")), F("e", TV("U")), F("_", Pad(1)),
       F("n", Num("uint8")), F("b", TupT(<<TV("U"), TupT(<<T, Num("uint8")>>)>>)), F("a", TupT(<<T, Arr("U", -1, "", TupT(<<T, TV("U")>>))>>))}
Uses(b) == Uniq(FlattenSeq([i \in 1..Len(b) |-> TVs(b[i].h)]))
Types == {Num("int32"), DChar("uint8"), TupT(<<Num("uint8"), Num("uint16")>>)}
Lens == {Num("uint8"), Num("uint32")}
(* W: another type; V: another format *)
Steps == {<<TV("T"), TV("U")>>, <<TV("W"), TV("U")>>, <<Num("int32"), TV("V")>>, <<TV("T"), Num("uint16")>>, <<TV("V"), TV("V")>>,
          <<Arr("uint8", -1, "", TV("W")), TV("V")>>}
G2 == {F("a", Num("uint16")), F("b", Nil), F("f", TV("V")), F("f", TV("W")), F("g", DChar("uint8"))}
Left(a) == Uniq(FlattenSeq([i \in 1..Len(a) |-> TVs(a[i])]))
RECURSIVE ArgsFor(_)
ArgsFor(ps) == IF ps = <<>> THEN {<<>>}
               ELSE {Append(y, x) : y \in ArgsFor(Front(ps)), x \in IF ps[Len(ps)] \in {"U", "V"} THEN Lens ELSE Types}
GenericDefs ==
  CASE Len(hist) = 0 -> {Cl("G", <<>>, <<"T", "U">>, "<", "strict", b) : b \in {x \in Full(G1, Size1) : Uses(x) # <<>>}}
    [] Len(hist) = 1 -> {Cl("H", On("G", a), gp, "<", "strict", b) :
                          a \in Steps, gp \in {<<>>, <<"r">>}, b \in {x \in Bodied(G2, Size2) : TRUE}}
    [] Len(hist) = 2 -> {Cl("S", On("H", a), <<>>, "<", "strict", b) : a \in ArgsFor(st.classes["H"].params), b \in Bodied(C2, Size3)}
(* Generic[...] of its own: the parameters left, in the other order *)
Fix(c) == IF c.gp # <<"r">> THEN c ELSE [c EXCEPT !.gp = Reverse(Left(c.bases[1].a))]
(* own hints only use parameters there are; parameters inside of hint types have to be listed *)
Visible(c) == IF c.bases = <<>> \/ c.gp # <<>> THEN TRUE
              ELSE \A i \in 1..Len(c.bases[1].a) : c.bases[1].a[i].k = "arr" => ~Generic(c.bases[1].a[i])
Sane(c) == IF ~Visible(c) THEN FALSE ELSE IF c.n # "H" \/ c.bases = <<>> THEN TRUE ELSE \A i \in 1..Len(c.own) : \A j \in 1..Len(TVs(c.own[i].h)) : \E k \in 1..Len(Left(c.bases[1].a)) :
              Left(c.bases[1].a)[k] = TVs(c.own[i].h)[j]

(* --- "nested" ------------------------------------------------------------------------- *)
N1 == {F("a", T), F("b", DChar("U")), F("b", Arr("U", -1, "", T))}
N2 == {F("p", Inst("G", <<TV("T"), Num("uint16")>>)), F("q", Arr("uint8", -1, "", Inst("G", <<TV("T"), TV("U")>>))), F("p", Inst("G", <<Num("int8"), TV("U")>>)),
       F("r", TupT(<<Inst("G", <<TV("U"), TV("U")>>), Num("uint16")>>)), F("k", TV("T")), F("q", Inst("G", <<Arr("uint8", -1, "", T), Num("uint8")>>)),
       F("s", Inst("G", <<Num("uint32"), Num("uint8")>>))}
NestedDefs ==
  CASE Len(hist) = 0 -> {Cl("G", <<>>, <<"T", "U">>, bo, "strict", b) : b \in {x \in Full(N1, Size1) : Uses(x) # <<>>}, bo \in {"<", ">"}}
    [] Len(hist) = 1 -> {Cl("H", <<>>, <<"T", "U">>, "<", "strict", b) : b \in Full(N2, Size2)}
    [] Len(hist) = 2 -> {Cl("S", On("H", a), <<>>, "<", "strict", <<>>) : a \in ArgsFor(<<"T", "U">>)}
                        \cup {Cl("S", <<>>, <<>>, bo, "strict", <<F("x", Num("uint8")), F("y", Inst("H", a))>>) : a \in ArgsFor(<<"T", "U">>), bo \in {"<", ">"}}

(* --- "rest" ------------------------------------------------------------------------------ *)
RestOf(t) ==
  {t, Uni(Rest, "utf8"), TupT(<<Num("uint8"), t>>), TupT(<<t, Num("uint8")>>), Arr("uint8", -1, "", t), Arr("", 1, "", TupT(<<Num("uint8"), t>>)),
   Cond(t, Ge(Attr("n"), 1), <<NoneV>>, "q1"), Cond(TupT(<<t, Num("uint8")>>), Ge(Attr("n"), 1), <<NoneV>>, "q1"),
   Lb(Attr("n"), <<Alt(N(1), Num("uint16")), Alt(N(2), t)>>, <<>>, "q1"), Lb(Attr("n"), <<Alt(N(1), Num("uint16"))>>, <<t>>, "q1")}
R0 == {F("n", Num("uint8")), F("_", Pad(1)), F("p", Plain), F("m", DChar("uint8"))} \cup {F("a", h) : h \in RestOf(Rest)}
R1 == {F("a", Nil), F("a", Num("uint16")), F("a", Plain), F("n", Rest), F("z", Rest), F("z", Num("uint8")), F("_", Pad(2)), F("z", Plain), F("z", CVar),
       F("m", TupT(<<Num("uint8"), Rest>>))}
R2 == {F("x", Ref(c)) : c \in DOMAIN st.classes} \cup {F("y", Num("uint8")), F("_", Pad(1)), F("w", Rest), F("y", Plain)}
      \cup {F("x", TupT(<<Ref(c), Num("uint8")>>)) : c \in DOMAIN st.classes} \cup {F("x", Arr("", 1, "", Ref(c))) : c \in DOMAIN st.classes}
Known(b) == \A i \in 1..Len(b) : b[i].n = "a" /\ b[i].h.k \in {"lb", "cond"} => \E j \in 1..i : b[j].n = "n"
RestDefs ==
  CASE Len(hist) = 0 -> {Cl("A", <<>>, <<>>, "<", "strict", b) : b \in {x \in Full(R0, Size1) : Known(x)}}
    [] Len(hist) = 1 -> IF "A" \notin DOMAIN st.classes THEN {Cl("B", <<>>, <<>>, "<", "strict", <<F("z", Rest)>>)}
                        ELSE {Cl("B", On("A", <<>>), <<>>, "<", "strict", b) : b \in Bodied(R1, Size2)}
    [] Len(hist) = 2 -> {Cl("C", <<>>, <<>>, "<", "strict", b) : b \in Full(R2, Size3)}

In(s, x) == \E i \in 1..Len(s) : s[i] = x
(* --- "decl" ------------------------------------------------------------------------------ *)
Lbn(m, df) == Lb(Attr("n"), m, df, "q1")
La1(r, m, df) == [k |-> "la", r |-> r, d |-> [x |-> "const", v |-> N(1)], m |-> m, df |-> df, lbl |-> "q1"]
Bad(s) == [k |-> "bad", src |-> s]
Cust(c, t) == [k |-> "cust", t |-> t, cn |-> c, fac |-> FALSE]
U8 == Num("uint8")
Neg(t) == [t EXCEPT !.n = -1]
DAtoms ==    \* proper ones, misdeclared ones, and some that are just not serialized
  {Num("int16"), Char(0), Pad(1), DChar("uint32"), Uni(DChar("uint64"), "utf8"), Arr("uint16", -1, "uint64", U8), Arr("", 0, "", Char(1)),
   TupT(<<U8, U8>>), Cust("MyInt", U8), Cond(U8, Ge(Attr("n"), 1), <<NoneV>>, "q1"), Cond(Pad(1), Ge(Attr("n"), 1), <<>>, "q1"), Ref("A"),
   Plain, Nil, CVar, TupT(<<U8, Plain>>),
   Bad("char"), Bad("array[Header[3]]"), Neg(Char(0)), Neg(Pad(0)), Neg([Char(0) EXCEPT !.k = "pascal"]), DChar("int8"), DChar("float32"), Uni(DChar("bool8"), "utf8"),
   Uni(Neg(Char(0)), "utf8"), Arr("int16", -1, "", U8), Arr("uint8", -1, "int8", U8), Arr("", 2, "float64", U8), Arr("", -1, "", U8),
   TupT(<<Neg(Char(0)), Plain>>), Cust("MyInt", DChar("uint8")), Cust("MyInt", Plain), Cust("MyInt", TupT(<<U8>>)),
   Cond(Plain, Ge(Attr("n"), 1), <<NoneV>>, "q1"), Cond(U8, Ge(Attr("n"), 1), <<>>, "q1"), Cond(U8, Ge(Attr("n"), 1), <<NoneV, NoneV>>, "q1"),
   Cond(Pad(1), Ge(Attr("n"), 1), <<NoneV>>, "q1")}
PadLike(h) == PadHint(h)
DWraps(h) ==
  {h, Lbn(<<Alt(N(1), h), Alt(N(2), U8)>>, <<>>), La1(TupT(<<U8, U8>>), <<Alt(N(1), h)>>, <<>>)}
  \cup (IF h.k = "nil" THEN {} ELSE {Lbn(<<Alt(N(1), U8)>>, <<h>>)})      \* None: no default
  \cup (IF PadLike(h) /\ ~Ill(h, st.classes) THEN {} ELSE {TupT(<<U8, h>>)})
  \cup IF PadLike(h) THEN {} ELSE
       {Arr("uint8", -1, "", h), Arr("", 2, "uint8", TupT(<<h, U8>>)), La1(h, <<Alt(N(1), U8)>>, <<>>), Cond(h, Ge(Attr("n"), 1), <<NoneV>>, "q1")}
  \cup IF h.k \in {"tup", "cust"} THEN {} ELSE {Cust(IF h.k = "char" THEN "MyBytes" ELSE "MyInt", h)}
DeclDefs ==
  CASE Len(hist) = 0 -> {Cl("A", <<>>, <<>>, "<", "strict", <<F("n", U8), F("a", Num("uint16"))>>)}
    [] Len(hist) = 1 -> {Cl("B", x, <<>>, "<", "strict", <<F("b", h)>> \o y) :
                           x \in {<<>>} \cup (IF Size1 > 0 THEN {On("A", <<>>)} ELSE {}), y \in {<<>>} \cup (IF Size2 > 0 THEN {<<F("c", U8)>>} ELSE {}),
                           h \in UNION {DWraps(a) : a \in DAtoms}}
    [] Len(hist) = 2 -> {Cl("C", On(x, <<>>), <<>>, "<", "strict", b) : x \in DOMAIN st.classes,
                           b \in {<<F("a", U8)>>} \cup (IF Size3 > 0 THEN {<<F("n", h)>> : h \in {Neg(Char(0)), Bad("unicode"), Arr("int8", -1, "", U8)}} ELSE {})}

(* --- "gdecl" --------------------------------------------------------------------------------- *)
D1 == {F("a", T), F("a", TupT(<<T, U8>>)), F("a", Arr("uint8", -1, "", T)), F("a", Arr("", 2, "", TupT(<<U8, T>>))),
       F("b", DChar("U")), F("b", Uni(DChar("U"), "utf8")), F("b", Arr("U", -1, "", U8)), F("b", Arr("", 2, "U", U8)), F("b", TupT(<<Arr("uint8", -1, "U", U8), U8>>)),
       F("b", Arr("U", -1, "", Arr("uint8", -1, "", T)))}
GBad == {Num("int8"), Num("bool8"), Num("float32"), Plain, Nil, Char(2), Bad("char"), Neg(Char(0)), Arr("int8", -1, "", U8)}
GArgs == GBad \cup {U8, Num("uint64"), Cust("MyInt", U8)}
GUses(a) == {Cl("S", On("H", a), <<>>, "<", "strict", <<>>)}
            \cup {Cl("S", <<>>, <<>>, ">", "strict", <<F("x", U8), F("y", h)>>) : h \in {Inst("H", a), Arr("uint8", -1, "", Inst("H", a)), TupT(<<Inst("H", a), U8>>)}}
GDeclDefs ==      \* no parameter that is not used
  CASE Len(hist) = 0 -> {Cl("G", <<>>, Uses(b), "<", "strict", b) : b \in {x \in Full(D1, Size1) : Uses(x) # <<>>}}
    [] Len(hist) = 1 -> LET ps == hist[1].gp IN
                        {Cl("H", On("G", [i \in 1..Len(ps) |-> TV(ps[i])]), ps, "<", "strict", b) :
                           b \in {<<>>} \cup (IF Size2 > 0 /\ In(ps, "U") THEN {<<F("c", DChar("U"))>>} ELSE {})}
    [] Len(hist) = 2 -> UNION {GUses(a) : a \in [1..Len(hist[2].gp) -> GArgs]}

Defs == CASE Universe = "decl" -> DeclDefs [] Universe = "gdecl" -> GDeclDefs [] Universe = "inherit" -> InheritDefs [] Universe = "generic" -> {Fix(c) : c \in GenericDefs}
          [] Universe = "nested" -> NestedDefs [] Universe = "rest" -> RestDefs

Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < 3
        /\ \E c \in Defs : /\ Sane(c) = TRUE
                           /\ st' = OpDefine(st, c).st
                           /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

(* --- laws ------------------------------------------------------------------------------- *)
Defined(n) == n \in DOMAIN st.classes
NamesOf(n) == AttrNames(st.classes[n].rec)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
DeclaredNames(n) == {st.classes[n].hints[i].n : i \in 1..Len(st.classes[n].hints)}

(* what a subclass is over its base *)
SubclassLaws ==
  \A d \in 1..Len(hist) :
    LET c == hist[d] IN
    (c.bases # <<>> /\ Defined(c.n)) =>
      LET b == c.bases[1].n
          s == NamesOf(c.n)
          t == NamesOf(b)
          own == {c.own[i].n : i \in 1..Len(c.own)} IN
      \* inherited attributes keep their order, new ones follow in theirs
      /\ \A x, y \in 1..Len(s) : In(t, s[x]) /\ In(t, s[y]) => (x < y <=> Pos(t, s[x]) < Pos(t, s[y]))
      /\ \A x, y \in 1..Len(s) : s[x] \in DeclaredNames(b) /\ s[y] \notin DeclaredNames(b) => x < y
      /\ \A i, j \in 1..Len(c.own) : LET m == c.own[i].n
                                         n == c.own[j].n IN
            In(s, m) /\ In(s, n) /\ {m, n} \cap DeclaredNames(b) = {} => (i < j <=> Pos(s, m) < Pos(s, n))
      \* nothing gets lost, nothing comes from nowhere
      /\ \A i \in 1..Len(t) : t[i] \notin own => In(s, t[i])
      /\ \A i \in 1..Len(s) : In(t, s[i]) \/ s[i] \in own \/ s[i] \in DeclaredNames(b)
      \* pads add up
      /\ LET Pads(r) == Len(SelectSeq(r.fs, LAMBDA x : IsPad(x.t))) IN
         Pads(st.classes[c.n].rec) = Pads(st.classes[b].rec) + Len(SelectSeq(c.own, LAMBDA x : PadHint(x.h)))
      \* a class of the same contents is the same as its base, but for its name
      /\ c.own = <<>> /\ c.bases[1].a = <<>> => [i \in 1..Len(st.classes[c.n].rec.fs) |-> st.classes[c.n].rec.fs[i].t]
                                                 = [i \in 1..Len(st.classes[b].rec.fs) |-> st.classes[b].rec.fs[i].t]
      \* byte orders: that of the definition
      /\ st.classes[c.n].bo = c.bo /\ (c.mode = "strict" => st.classes[b].bo = c.bo)

(* written out by hand, a class is the same *)
Hand(n) == LET c == st.classes[n] IN
           Cl("hand", <<>>, <<>>, c.bo, "strict", [i \in 1..Len(c.hints) |-> [c.hints[i] EXCEPT !.n = IF @ = "#pad" THEN "_" ELSE @]])
ByHand == \A n \in DOMAIN st.classes :
            LET r == Define(Hand(n), st.classes) IN
            r.ok /\ [r.cl.rec EXCEPT !.cls = n] = st.classes[n].rec

(* specializing in two steps is specializing at once *)
TwoSteps ==
  (Universe = "generic" /\ Len(hist) = 3 /\ Defined("S")) =>
    LET h == hist[2]
        s == hist[3]
        at == [i \in 1..Len(h.bases[1].a) |-> Subst(h.bases[1].a[i], Binding(st.classes["H"].params, s.bases[1].a))]
        once == OpDefine(st, Cl("O", On("G", at), <<>>, "<", "strict", <<>>)) IN
    /\ once.out.ok
    /\ (h.own = <<>> /\ s.own = <<>>) => once.st.classes["O"].rec.fs = st.classes["S"].rec.fs
    \* nothing generic is left
    /\ \A i \in 1..Len(st.classes["S"].hints) : ~Generic(st.classes["S"].hints[i].h)

(* accepted: what takes the rest of the data is last, wherever it is; refused: it is not, or the orders differ *)
RECURSIVE Flat(_)     \* the types in the order they are serialized, conditions and unions taken for their contents
Flat(t) == CASE t.k = "rec" -> FlattenSeq([i \in 1..Len(t.fs) |-> Flat(t.fs[i].t)])
             [] t.k = "tup" -> FlattenSeq([i \in 1..Len(t.e) |-> Flat(t.e[i])])
             [] t.k \in {"cond", "uni"} -> Flat(t.t)
             [] t.k = "arr" -> IF Final(t.t) THEN Flat(t.t) \o Flat(t.t) ELSE Flat(t.t)
             [] t.k = "lb" -> LET alts == [i \in 1..Len(t.m) |-> t.m[i].t] \o t.df
                                  ends == SelectSeq(alts, Final) IN IF ends = <<>> THEN Flat(alts[1]) ELSE Flat(ends[1])
             [] OTHER -> <<t>>
Open(s) == \E i \in 1..(Len(s) - 1) : s[i].k = "cchar"
RestLast ==
  Universe = "rest" =>
    \A n \in DOMAIN st.classes : ~Open(Flat(st.classes[n].rec))
RestRefused ==
  \A d \in 1..Len(hist) :
    LET c == hist[d] IN
    ~Defined(c.n) => \/ c.mode = "strict" /\ c.bases # <<>> /\ Defined(c.bases[1].n) /\ st.classes[c.bases[1].n].bo # c.bo
                     \/ Universe \in {"decl", "gdecl"}
                     \/ Universe = "rest" /\
                        LET hs == Override(IF c.bases = <<>> THEN <<>> ELSE BaseHints(c.bases[1], st.classes), c.own) IN
                        Open(Flat(RecOf(c.n, c.bo, hs, st.classes)))

(* refusals are local: a class is refused exactly if it would be for one of its attributes alone, *)
(* and what is accepted makes sense                                                              *)
RECURSIVE Sound(_)
Sound(t) ==
  CASE t.k = "num" -> t.f \in Formats
    [] t.k \in {"char", "pad", "pascal"} -> t.n \in Nat
    [] t.k = "dchar" -> t.f \in Lengths
    [] t.k = "uni" -> t.t.k \in {"char", "dchar", "tchar", "net", "cchar"} /\ Sound(t.t)
    [] t.k = "arr" -> (t.cf \in Lengths \/ (t.cf = "" /\ t.n \in Nat)) /\ t.sf \in Lengths \cup {""} /\ Sound(t.t)
    [] t.k = "tup" -> \A i \in 1..Len(t.e) : Sound(t.e[i])
    [] t.k = "rec" -> \A i \in 1..Len(t.fs) : Sound(t.fs[i].t)
    [] t.k = "cust" -> t.t.k \in {"num", "char", "pascal", "cust"} /\ Sound(t.t)
    [] t.k = "cond" -> Sound(t.t) /\ (Len(t.dv) = 1 \/ (t.dv = <<>> /\ t.t.k = "pad"))
    [] t.k \in {"lb", "la"} -> /\ \A i \in 1..Len(t.m) : Sound(t.m[i].t) /\ ~IsPad(t.m[i].t)
                               /\ t.df # <<>> => Sound(t.df[1]) /\ ~IsPad(t.df[1])
                               /\ t.k = "la" => Sound(t.r)
    [] OTHER -> FALSE
OneByOne ==
  Universe \in {"decl", "gdecl"} =>
    /\ \A n \in DOMAIN st.classes : Sound(st.classes[n].rec)
    /\ \A d \in 1..Len(hist) :
         LET c == hist[d]
             base == IF c.bases = <<>> THEN <<>> ELSE BaseHints(c.bases[1], st.classes)
             all == c.own \o base
             Alone(x) == Define(Cl("alone", <<>>, <<"T", "U">>, c.bo, "strict", <<x>>), st.classes).ok
             good == (\A i \in 1..Len(all) : Alone(all[i]))
                     /\ \A i \in 1..Len(c.bases) : \A j \in 1..Len(c.bases[i].a) : Alone(F("x", c.bases[i].a[j]))
         IN Defined(c.n) <=> good

(* a definition leaves the others as they are *)
Frame == [][\A n \in DOMAIN st.classes : st'.classes[n] = st.classes[n]]_vars

Export == Len(hist) = 3 => PrintT("@@" \o ToJson([defs |-> hist, ok |-> [i \in 1..3 |-> Defined(hist[i].n)]]))
=============================================================================
