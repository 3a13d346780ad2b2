------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Exhaustive model of histories: small universes of classes, objects,     *)
(* buffers, files and serializers, and every sequence of a given number of *)
(* operations on them, failing ones included.                              *)
(*                                                                         *)
(* Checked in every state: what can be said of all states (Sound); of every*)
(* step: that it changes only what the operation is about (Frame), and that*)
(* its outcome does not depend on anything else (Local).  Every complete   *)
(* history is printed, to be replayed into the library and judged by Trace.*)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Universe, Depth
VARIABLES st, hist
vars == <<st, hist>>

Num(f) == [k |-> "num", f |-> f]
N(n) == [k |-> "int", neg |-> FALSE, mag |-> LimbsOf(n)]
DChar(f) == [k |-> "dchar", f |-> f]
TChar(b) == [k |-> "tchar", b |-> b]
Rest == [k |-> "cchar", z |-> 0]
Arr(cf, n, sf, t) == [k |-> "arr", cf |-> cf, n |-> n, sf |-> sf, t |-> t]
TupT(e) == [k |-> "tup", e |-> e]
Ref(n) == [k |-> "ref", n |-> n]
Self == [k |-> "self"]
Cust(t, cn, fac) == [k |-> "cust", t |-> t, cn |-> cn, fac |-> fac]
Attr(n) == [x |-> "attr", n |-> n]
Mod(x, c) == [x |-> "mod", a |-> x, c |-> c]
Ge(x, c) == [x |-> "ge", a |-> x, c |-> c]
Dot(x, n) == [x |-> "dot", a |-> x, n |-> n]
LenX(x) == [x |-> "len", a |-> x]
Lb(d, m, df, q) == [k |-> "lb", d |-> d, m |-> m, df |-> df, lbl |-> q]
La(r, d, m, df, q) == [k |-> "la", r |-> r, d |-> d, m |-> m, df |-> df, lbl |-> q]
Cond(t, d, dv, q) == [k |-> "cond", t |-> t, d |-> d, dv |-> dv, lbl |-> q]
Alt(k, t) == [key |-> k, t |-> t]
Uni(t, e) == [k |-> "uni", t |-> t, enc |-> e]
F(n, h) == [n |-> n, h |-> h]

(* --- events ------------------------------------------------------------- *)
Cl(n, bases, bo, own) ==
  [op |-> "define", c |-> [n |-> n, bases |-> bases, gp |-> <<>>, bo |-> bo, mode |-> "strict", init |-> TRUE, own |-> own]]
Sub(n) == <<[n |-> n, a |-> <<>>]>>
New(o, c, a) == [op |-> "new", o |-> o, c |-> c, a |-> a]
Set(o, n, v) == [op |-> "set", o |-> o, n |-> n, v |-> v]
Grow(o, n, v) == [op |-> "grow", o |-> o, n |-> n, v |-> v]
Pack(o) == [op |-> "pack", o |-> o]
Into(o, b, off) == [op |-> "packinto", o |-> o, buf |-> b, off |-> off]
Write(o, f) == [op |-> "packwrite", o |-> o, file |-> f]
UnpackE(o, c, b) == [op |-> "unpack", o |-> o, c |-> c, buf |-> b]
From(o, c, b, off) == [op |-> "unpackfrom", o |-> o, c |-> c, buf |-> b, off |-> off]
Read(o, c, f) == [op |-> "unpackread", o |-> o, c |-> c, file |-> f]
Wbo(o, r, bo) == [op |-> "wbo", o |-> o, r |-> r, bo |-> bo]
EqE(a, b) == [op |-> "eq", a |-> a, b |-> b]
Buf(id, b, kind) == [op |-> "buf", id |-> id, b |-> b, kind |-> kind]
Poke(id, off, x) == [op |-> "poke", id |-> id, off |-> off, x |-> x]
File(id, b, p) == [op |-> "file", id |-> id, b |-> b, p |-> p, kind |-> "mem"]
Seek(id, p) == [op |-> "seek", id |-> id, p |-> p]
Ser(s, ts, bo, how) == [op |-> "ser", s |-> s, ts |-> ts, bo |-> bo, how |-> how]
SerAdd(r, a, b) == [op |-> "seradd", s |-> r, sa |-> a, sb |-> b]
SerMul(r, a, n) == [op |-> "sermul", s |-> r, sa |-> a, n |-> n, fold |-> FALSE]
SerWbo(r, a, bo) == [op |-> "serwbo", s |-> r, sa |-> a, bo |-> bo]

(* --- universes: what there is at first (i), and the operations at each step ---- *)
(* id: a name for something made by the step                                        *)

(* "state": classes sharing hints, a subclass, an outer class; operations that fail *)
Items == Arr("uint8", -1, "uint16", Num("uint16"))
StateInit ==
  <<Cl("P", <<>>, "<", <<F("n", Num("uint16")), F("items", Items), F("s", DChar("uint8"))>>),
    Cl("Q", Sub("P"), "<", <<F("m", Cond(Num("uint32"), Mod(Attr("n"), 2), <<NoneV>>, "q1"))>>),
    Cl("R", <<>>, ">", <<F("k", Num("uint8")), F("p", Ref("P")),
                         F("u", Lb(Attr("k"), <<Alt(N(1), Items), Alt(N(2), DChar("uint8"))>>, <<>>, "q2"))>>),
    New("x", "P", <<N(258), LstV(<<N(1), N(513)>>), BytV(<<97>>)>>),
    New("y", "P", <<N(3), LstV(<<>>), BytV(<<98, 99>>)>>),
    New("q", "Q", <<N(7), LstV(<<N(9)>>), BytV(<<>>), N(67305985)>>),
    New("r", "R", <<N(1), ObjV("P", <<[n |-> "n", v |-> N(4)], [n |-> "items", v |-> LstV(<<N(5)>>)],
                                      [n |-> "s", v |-> BytV(<<100>>)]>>), LstV(<<N(6), N(770)>>)>>),
    Buf("b", <<5, 0, 2, 4, 0, 1, 0, 2, 3, 2, 120, 121>>, "bytes"),
    Buf("h", <<5, 0, 3, 6, 0, 1, 0, 2, 3, 2>>, "bytes"),              \* ends too early
    Buf("c", [i \in 1..40 |-> 7], "bytearray"),
    File("f", <<9, 0, 1, 2, 0, 8, 8, 0, 9, 0, 0, 0, 0, 0, 1>>, 0)>>
StateOps(id) ==
  {Pack("x"), Pack("q"), Pack("r"), Into("x", "c", 3), Into("r", "c", 30), Write("y", "f"),
   From("n" \o id, "P", "b", 0), UnpackE("y", "", "b"), UnpackE("x", "", "h"), From("n" \o id, "Q", "h", 0),
   Read("n" \o id, "P", "f"), Seek("f", 0), Set("x", "n", N(65536)), Set("x", "n", N(5)),
   Set("r", "k", N(2)), Set("q", "n", N(4)), Grow("y", "items", N(70000)), Grow("y", "items", N(1)),
   Wbo("q", "w" \o id, ">"),
   Cl("D" \o id, Sub("P"), "<", <<F("n", Num("uint8")), F("z", Items)>>)}

(* "streams": what is written at various places of one buffer and one file *)
StreamInit ==
  <<Cl("A", <<>>, "<", <<F("n", Num("uint16")), F("t", TChar(0))>>),
    Cl("B", <<>>, "", <<F("a", Arr("uint8", -1, "", Num("uint16"))), F("d", La(Num("uint8"), LenX(Attr("a")),
              <<Alt(N(1), TupT(<<Num("uint8"), Num("uint8")>>))>>, <<Num("uint16")>>, "q1"))>>),
    Cl("Z", <<>>, "", <<F("n", Num("uint8")), F("r", Rest)>>),
    New("x", "A", <<N(258), BytV(<<97>>)>>), New("y", "B", <<LstV(<<N(3)>>), TupV(<<N(1), N(2)>>)>>),
    New("z", "Z", <<N(1), BytV(<<65, 0>>)>>),
    Buf("b", <<1, 2, 0, 1, 1, 0, 9, 8, 7, 6>>, "bytearray"),
    File("f", <<1, 2, 0, 1, 1, 0, 9, 8>>, 0)>>
StreamOps(id) ==
  {Into("x", "b", 0), Into("x", "b", 4), Into("y", "b", 2), Into("y", "b", 6), Into("z", "b", 8), Into("x", "b", 7),
   Write("x", "f"), Write("y", "f"), Write("z", "f"), Seek("f", 0), Seek("f", 3),
   Read("n" \o id, "A", "f"), Read("y", "", "f"), Read("n" \o id, "Z", "f"),
   From("n" \o id, "A", "b", 0), From("x", "", "b", 4), From("n" \o id, "B", "b", 2), From("z", "", "b", 6),
   Poke("b", 3, 0)}

(* "tree": a recursive class, a subclass of it, trees in various states *)
T(k, kids, one) == ObjV("T", <<[n |-> "k", v |-> N(k)], [n |-> "kids", v |-> LstV(kids)], [n |-> "one", v |-> one],
                               [n |-> "u", v |-> (IF k % 2 = 0 THEN N(8) ELSE BytV(<<97>>))]>>)
TreeOwn == <<F("k", Num("uint8")), F("kids", Arr("uint8", -1, "uint16", Self)),
             F("one", Cond(Self, Ge(Attr("k"), 4), <<NoneV>>, "q1")),
             F("u", Lb(Mod(Attr("k"), 2), <<Alt(N(0), Num("uint16")), Alt(N(1), DChar("uint8"))>>, <<>>, "q2"))>>
Leaf(k) == T(k, <<>>, NoneV)
Args(o) == [i \in 1..Len(o.f) |-> o.f[i].v]
TreeInit ==
  <<Cl("T", <<>>, ">", TreeOwn),
    Cl("S", Sub("T"), ">", <<F("x", Num("uint16"))>>),
    New("a", "T", Args(Leaf(0))), New("b", "T", Args(T(1, <<Leaf(2), T(3, <<Leaf(0)>>, NoneV)>>, NoneV))),
    New("c", "T", Args(T(5, <<Leaf(1)>>, T(4, <<>>, Leaf(2))))),
    New("s", "S", <<N(3), LstV(<<>>), NoneV, BytV(<<>>), N(5)>>),
    \* as bytes: 5 with a 4 with a 2
    Buf("t", <<5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 0, 8, 0, 8, 1, 97>>, "bytes"),
    Buf("g", <<2, 2, 0, 12, 0, 0, 0, 0, 0, 8, 1, 0, 0, 0, 1, 97, 0, 8>>, "bytes"),     \* 2 with 0 and 1
    Buf("h", <<2, 2, 0, 13, 0, 0, 0, 0, 0, 8, 1, 0, 0, 0, 1, 97, 0, 8, 0>>, "bytes"),  \* wrong size
    Buf("v", <<3, 1, 0, 8, 1, 0, 0, 0, 1, 97, 0, 9, 0, 0, 6>>, "bytes"),           \* S with an S
    File("f", <<5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 0, 8, 0, 8, 1, 97>>, 0)>>
TreeOps(id) ==
  {Pack("a"), Pack("b"), Pack("c"), Pack("s"), UnpackE("a", "", "t"), UnpackE("c", "", "g"), UnpackE("b", "", "h"),
   UnpackE("n" \o id, "T", "t"), UnpackE("n" \o id, "T", "h"), UnpackE("s", "", "v"), UnpackE("n" \o id, "S", "v"),
   Read("n" \o id, "T", "f"), Write("c", "f"), Set("b", "k", N(4)), Set("c", "k", N(2)), Grow("a", "kids", Leaf(1)),
   Grow("b", "kids", N(1)), Wbo("b", "w" \o id, "<")}

(* "unions": unpacking in place over objects that decided otherwise before *)
UnionOwn == <<F("k", Num("uint8")), F("e", Arr("uint8", -1, "", Lb(Attr("k"), <<Alt(N(1), Num("uint8")), Alt(N(2), Num("uint16"))>>,
                                                               <<>>, "q1"))),
              F("c", Cond(DChar("uint8"), Ge(LenX(Attr("e")), 1), <<NoneV>>, "q2")),
              F("l", La(Num("uint8"), Attr("k"), <<Alt(N(1), TupT(<<Num("uint8"), Num("uint16")>>))>>,
                        <<Num("uint8")>>, "q3"))>>
UnionInit ==
  <<Cl("U", <<>>, "<", UnionOwn), Cl("V", <<>>, ">", <<F("k", Num("uint8")), F("u", Ref("U"))>>),
    New("x", "U", <<N(1), LstV(<<N(5)>>), BytV(<<97>>), TupV(<<N(1), N(2)>>)>>),
    New("y", "U", <<N(2), LstV(<<>>), NoneV, N(9)>>),
    New("v", "V", <<N(1), ObjV("U", <<[n |-> "k", v |-> N(2)], [n |-> "e", v |-> LstV(<<N(500)>>)], [n |-> "c", v |-> BytV(<<>>)],
                                      [n |-> "l", v |-> N(7)]>>)>>),
    Buf("a", <<1, 2, 3, 4, 1, 98, 1, 6, 0>>, "bytes"), Buf("b", <<2, 1, 3, 4, 0, 8>>, "bytes"),
    Buf("c", <<1, 0, 1, 6, 0>>, "bytes"), Buf("d", <<3, 1, 1, 1, 1>>, "bytes"), Buf("e", <<3, 0, 5>>, "bytes"),
    Buf("g", <<2, 1, 1, 2, 3, 4, 5, 7>>, "bytes"),
    File("f", <<1, 0, 1, 6, 0, 2, 1, 3, 4, 0, 8, 3, 1, 0>>, 0)>>
UnionOps(id) ==
  {UnpackE("x", "", "a"), UnpackE("x", "", "b"), UnpackE("y", "", "a"), UnpackE("y", "", "c"), UnpackE("x", "", "d"),
   UnpackE("x", "", "e"), UnpackE("v", "", "g"), From("n" \o id, "V", "g", 0), From("n" \o id, "U", "g", 1), Read("y", "", "f"),
   Read("n" \o id, "U", "f"), Pack("x"), Pack("y"), Pack("v"), Set("x", "k", N(2)), Set("y", "k", N(1)), Set("x", "k", N(3)),
   Grow("y", "e", N(300))}

(* "orders": objects given other byte orders *)
OrderInit ==
  <<Cl("I", <<>>, ">", <<F("i", Num("uint16"))>>),
    Cl("O", <<>>, "<", <<F("n", Num("uint16")), F("d", DChar("uint16")), F("i", Ref("I")),
                         F("a", Arr("uint16", -1, "", TupT(<<Num("int16"), Uni(DChar("uint16"), "utf16")>>))),
                         F("u", Lb(Attr("n"), <<Alt(N(1), Num("uint32"))>>, <<[k |-> "u24", z |-> 0]>>, "q1"))>>),
    New("x", "O", <<N(1), BytV(<<97>>), ObjV("I", <<[n |-> "i", v |-> N(258)]>>),
                    LstV(<<TupV(<<N(3), StrV(<<98>>)>>)>>), N(66051)>>),
    New("y", "O", <<N(513), BytV(<<>>), ObjV("I", <<[n |-> "i", v |-> N(2)]>>), LstV(<<>>), N(66051)>>),
    Wbo("x", "z", ">"),
    Buf("l", <<1, 0, 1, 0, 97, 1, 2, 0, 0, 4, 3, 2, 1>>, "bytes"),
    Buf("m", <<0, 1, 0, 1, 97, 1, 2, 0, 0, 4, 3, 2, 1>>, "bytes"),
    File("f", <<>>, 0)>>
OrderOps(id) ==
  {Pack("x"), Pack("y"), Pack("z"), Wbo("x", "w" \o id, ">"), Wbo("y", "w" \o id, "!"), Wbo("z", "w" \o id, "<"),
   Wbo("z", "w" \o id, "="), Wbo("y", "w" \o id, "@"),
   UnpackE("x", "", "l"), UnpackE("z", "", "m"), UnpackE("z", "", "l"), UnpackE("n" \o id, "O", "l"), Set("z", "n", N(258)),
   Set("x", "n", N(2)), Set("y", "n", N(1)), Write("z", "f"), Seek("f", 0), Read("z", "", "f"), Read("x", "", "f"), EqE("x", "z")}

(* "objects": construction, comparison and text *)
ObjInit ==
  <<Cl("A", <<>>, "", <<F("a", Num("uint8")), F("b", Uni(DChar("uint8"), "utf8"))>>),
    Cl("B", <<>>, "", <<F("a", Num("uint8")), F("b", Uni(DChar("uint8"), "utf8"))>>),
    Cl("C", Sub("A"), "", <<F("c", Arr("", 1, "", Num("int8")))>>),
    Cl("E", Sub("A"), "", <<>>),
    New("x", "A", <<N(1), StrV(<<97>>)>>), New("y", "A", <<N(1), StrV(<<97>>)>>), New("z", "B", <<N(1), StrV(<<97>>)>>),
    New("e", "E", <<N(1), StrV(<<97>>)>>), New("c", "C", <<N(1), StrV(<<97>>), LstV(<<N(1)>>)>>),
    Buf("b", <<1, 1, 97, 2>>, "bytes")>>
KwNew(o, c, a, kw, perm) == [op |-> "new", o |-> o, c |-> c, a |-> a, kw |-> kw, perm |-> perm]
ObjOps(id) ==
  {EqE("x", "y"), EqE("y", "x"), EqE("x", "z"), EqE("x", "e"), EqE("e", "x"), EqE("c", "x"), EqE("c", "c"),
   Set("x", "a", N(2)), Set("x", "a", N(1)), Set("x", "b", StrV(<<97>>)), Set("y", "b", StrV(<<98>>)), Set("c", "c", LstV(<<N(2)>>)),
   UnpackE("y", "", "b"), UnpackE("c", "", "b"), [op |-> "text", o |-> "x"], [op |-> "text", o |-> "c"],
   New("n" \o id, "A", <<N(1)>>), New("n" \o id, "A", <<N(1), StrV(<<>>), N(2)>>),
   KwNew("x", "A", <<N(1), StrV(<<97>>)>>, <<"a", "b">>, <<"b", "a">>), KwNew("n" \o id, "C", <<N(1), StrV(<<>>)>>, <<"a", "b">>, <<"a", "b">>),
   Wbo("y", "x", ">"), Pack("x")}

(* "custom": conversions, some refusing *)
CustInit ==
  <<Cl("K", <<>>, "", <<F("n", Num("uint8")), F("e", Cust(Num("uint16"), "Even", FALSE)), F("m", Cust(Num("uint8"), "MyInt", TRUE)),
                        F("l", Arr("uint8", -1, "", Cust(Num("uint8"), "Even", TRUE))),
                        F("c", Cond(Cust(Num("uint16"), "OtherInt", FALSE), Attr("n"), <<NoneV>>, "q1"))>>),
    Cl("L", Sub("K"), "", <<F("m", Cust(Num("uint16"), "OtherInt", FALSE)), F("z", Num("uint8"))>>),
    New("x", "K", <<N(1), CustV("Even", N(2)), CustV("MyInt", N(3)), LstV(<<CustV("Even", N(4))>>), CustV("OtherInt", N(5))>>),
    New("y", "L", <<N(0), CustV("Even", N(2)), CustV("OtherInt", N(772)), LstV(<<>>), NoneV, N(6)>>),
    Buf("b", <<1, 0, 2, 1, 7, 2, 4, 6, 1, 2>>, "bytes"), Buf("o", <<1, 0, 3, 1, 7, 0, 1, 2>>, "bytes"),
    Buf("h", <<1, 0, 2, 1, 7, 2, 4, 5, 1, 2>>, "bytes"), Buf("s", <<0, 0, 8, 0, 1, 2, 1, 2, 9>>, "bytes"),
    File("f", <<1, 0, 2, 1, 7, 2, 4, 6, 1, 2, 1, 0, 3, 1, 7>>, 0)>>
CustOps(id) ==
  {Pack("x"), Pack("y"), UnpackE("x", "", "b"), UnpackE("x", "", "o"), UnpackE("x", "", "h"), UnpackE("n" \o id, "K", "b"),
   UnpackE("n" \o id, "K", "o"), UnpackE("n" \o id, "K", "h"), UnpackE("y", "", "s"), UnpackE("n" \o id, "L", "s"),
   Read("n" \o id, "K", "f"), Write("x", "f"), Seek("f", 0), Set("x", "m", N(9)), Set("x", "m", N(256)),
   Grow("x", "l", CustV("Even", N(8))), Grow("x", "l", N(6)), Wbo("x", "w" \o id, ">"), Set("x", "n", N(0)), EqE("x", "x")}

(* "hooks": user written serializers that look at the object around them *)
Rel(m, d) == [k |-> "rel", m |-> m, d |-> d]
HookInit ==
  <<Cl("H", <<>>, "<", <<F("n", Num("uint16")), F("a", Rel("rw", Attr("n"))),
                         F("b", Arr("uint8", -1, "uint8", Rel("r", Attr("n")))),
                         F("c", Cond(TupT(<<Num("uint8"), Rel("w", Attr("a"))>>), Ge(Attr("n"), 2), <<NoneV>>, "q1")),
                         F("u", Lb(Mod(Attr("n"), 2), <<Alt(N(0), Rel("rw", LenX(Attr("b")))), Alt(N(1), [k |-> "vint", z |-> 0])>>, <<>>, "q2"))>>),
    Cl("G", Sub("H"), "<", <<F("n", Num("uint8")), F("h", Ref("H")), F("z", Rel("rw", Dot(Attr("h"), "n")))>>),
    New("x", "H", <<N(1), N(255), LstV(<<N(2), N(3)>>), NoneV, N(300)>>),
    New("y", "H", <<N(2), N(4), LstV(<<>>), TupV(<<N(9), N(7)>>), N(6)>>),
    New("g", "G", <<N(1), N(2), LstV(<<N(1)>>), NoneV, N(1),
                    ObjV("H", <<[n |-> "n", v |-> N(4)], [n |-> "a", v |-> N(1)], [n |-> "b", v |-> LstV(<<N(5)>>)],
                                [n |-> "c", v |-> TupV(<<N(1), N(2)>>)], [n |-> "u", v |-> N(3)]>>), N(0)>>),
    Buf("b", <<1, 0, 9, 1, 1, 5, 44, 2>>, "bytes"), Buf("o", <<1, 0, 9, 1, 1, 9, 44, 2>>, "bytes"),
    Buf("c", <<2, 0, 0, 2, 2, 1, 3, 8, 6, 255>>, "bytes"),
    Buf("h", <<1, 9, 0, 0, 128, 2, 3, 0, 7, 0, 0, 2, 9>>, "bytes"),
    File("f", <<2, 0, 0, 2, 2, 1, 3, 8, 6, 255, 1, 0, 9, 1, 1, 9>>, 0)>>
HookOps(id) ==
  {Pack("x"), Pack("y"), Pack("g"), UnpackE("x", "", "b"), UnpackE("x", "", "o"), UnpackE("y", "", "c"), UnpackE("x", "", "c"),
   UnpackE("n" \o id, "H", "b"), UnpackE("n" \o id, "H", "o"), UnpackE("g", "", "h"), UnpackE("n" \o id, "G", "h"),
   Read("n" \o id, "H", "f"), Write("y", "f"), Seek("f", 0), Set("x", "n", N(259)), Set("x", "n", N(4)), Set("y", "a", N(7)),
   Grow("x", "b", N(4)), Grow("y", "b", N(256)), Wbo("x", "w" \o id, ">"), Wbo("y", "w" \o id, "!")}

(* "sers": serializers on their own *)
SerInit ==
  <<Ser("a", <<Num("uint8"), Num("uint32")>>, "<", "direct"), Ser("b", <<DChar("uint16")>>, "<", "class"),
    Ser("c", <<Cust(Num("uint16"), "MyInt", FALSE), Num("int8")>>, "<", "class"), Ser("d", <<[k |-> "pad", n |-> 2]>>, "<", "direct"),
    Ser("e", <<>>, "<", "null"), Ser("g", <<Num("uint16")>>, ">", "direct")>>
SerOps(id) ==
  LET S == DOMAIN st.sers IN
  {SerAdd("r" \o id, x, y) : x, y \in S}
  \cup {SerMul("r" \o id, x, n) : x \in {y \in S : st.sers[y] # <<>> /\ \A i \in 1..Len(st.sers[y]) : Basic(st.sers[y][i].t)}, n \in {0, 2}}
  \cup {SerWbo("r" \o id, x, o) : x \in S, o \in {">", "<"}}

Setup == CASE Universe = "state" -> StateInit [] Universe = "streams" -> StreamInit [] Universe = "tree" -> TreeInit
           [] Universe = "unions" -> UnionInit [] Universe = "orders" -> OrderInit [] Universe = "objects" -> ObjInit
           [] Universe = "custom" -> CustInit [] Universe = "hooks" -> HookInit [] Universe = "sers" -> SerInit
Ops(id) == CASE Universe = "state" -> StateOps(id) [] Universe = "streams" -> StreamOps(id) [] Universe = "tree" -> TreeOps(id)
             [] Universe = "unions" -> UnionOps(id) [] Universe = "orders" -> OrderOps(id) [] Universe = "objects" -> ObjOps(id)
             [] Universe = "custom" -> CustOps(id) [] Universe = "hooks" -> HookOps(id) [] Universe = "sers" -> SerOps(id)

(* --- behaviours ---------------------------------------------------------------- *)
Do(s, e) == IF e.op = "text" THEN [st |-> s, out |-> [ok |-> TRUE]] ELSE Op(s, e)
Init == /\ st = FoldLeft(LAMBDA s, e : Do(s, e).st, Empty, Setup)
        /\ hist = <<>>
(* lists are shared between an object and itself in another byte order: appending then is not specified *)
Free(e) == e.op = "grow" => \A i \in 1..Len(hist) : hist[i].op = "wbo" => hist[i].o # e.o
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops(ToString(Len(hist))) :
             /\ Free(e)
             /\ st' = Do(st, e).st
             /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Constraint == TRUE

(* --- what always holds ------------------------------------------------------------ *)
(* objects have the attributes of their class, in order *)
Sound ==
  /\ \A o \in DOMAIN st.objs : [i \in 1..Len(st.objs[o].f) |-> st.objs[o].f[i].n] = AttrNames(st.classes[st.objs[o].c].rec)
  /\ \A f \in DOMAIN st.files : st.files[f].p <= Len(st.files[f].b)
  \* an object equals itself (there are no NaNs here) and equality is symmetric
  /\ \A o \in DOMAIN st.objs : OpEq(st, o, o).out.r
  /\ \A a, b \in DOMAIN st.objs : OpEq(st, a, b).out.r = OpEq(st, b, a).out.r
(* whatever packs can be unpacked, in the order of the object, to something that packs the same *)
(* (the serializers of "hooks" may write what they do not read) *)
Reversible ==
  Universe # "hooks" => \A o \in DOMAIN st.objs :
    LET p == Packed(st, o) IN
    p.ok => LET u == Unpacked(RecOfObj(st, o), p.b, 0) IN
            u.ok /\ u.n = Len(p.b) /\ LET e == EncRec(RecOfObj(st, o), u.v) IN e.ok /\ e.b = p.b

(* a step changes what its operation is about and nothing else *)
About(e) == {e[x] : x \in DOMAIN e \cap {"r", "o", "buf", "file", "id", "s"}} \cup (IF e.op = "define" THEN {e.c.n} ELSE {})
ObjTarget(e) == CASE e.op \in {"new", "set", "grow", "unpack", "unpackfrom", "unpackread"} -> {e.o}
               [] e.op = "wbo" -> {e.r} [] OTHER -> {}
BufTarget(e) == IF e.op = "packinto" THEN {e.buf} ELSE IF e.op = "poke" THEN {e.id} ELSE {}
FileTarget(e) == IF e.op \in {"packwrite", "unpackread"} THEN {e.file} ELSE IF e.op = "seek" THEN {e.id} ELSE {}
Same(m, n, but) == DOMAIN m \subseteq DOMAIN n /\ \A i \in DOMAIN m \ but : n[i] = m[i]
Frame == [][LET e == hist'[Len(hist')] IN
            /\ Same(st.objs, st'.objs, ObjTarget(e)) /\ Same(st.bufs, st'.bufs, BufTarget(e))
            /\ Same(st.files, st'.files, FileTarget(e)) /\ Same(st.classes, st'.classes, {}) /\ Same(st.sers, st'.sers, {})]_vars
(* a file is only written from its position on, a buffer only the record at its offset; reading leaves the bytes *)
Confined == [][LET e == hist'[Len(hist')] IN
               /\ e.op = "packwrite" => LET f == st.files[e.file]
                                            g == st'.files[e.file] IN
                    /\ SubSeq(g.b, 1, f.p) = SubSeq(f.b, 1, f.p) /\ g.p >= f.p
                    /\ SubSeq(g.b, g.p + 1, Len(g.b)) = SubSeq(f.b, g.p + 1, Len(f.b))
               /\ e.op = "packinto" => LET b == st.bufs[e.buf]
                                           c == st'.bufs[e.buf]
                                           p == Packed(st, e.o) IN
                    /\ Len(b) = Len(c) /\ SubSeq(b, 1, e.off) = SubSeq(c, 1, e.off)
                    /\ (b # c => SubSeq(c, e.off + 1, e.off + p.n) = p.b)
                    /\ (p.ok => SubSeq(b, e.off + p.n + 1, Len(b)) = SubSeq(c, e.off + p.n + 1, Len(b)))
               /\ e.op = "unpackread" => st'.files[e.file].b = st.files[e.file].b]_vars

Export == Len(hist) = Depth => PrintT("@@" \o ToJson([init |-> Setup, hist |-> hist]))
=============================================================================
