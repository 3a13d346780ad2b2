------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* Exhaustive model of small records: every class that can be built with a *)
(* few steps from an alphabet of attributes and an alphabet of ways to     *)
(* wrap what has been built so far (arrays, tuples, nested classes, unions,*)
(* conditions), in every byte order, together with a value for it.         *)
(*                                                                         *)
(* The state is the class under construction.  In every state the meaning  *)
(* of the class (ClassDef, Wire) has to satisfy the laws below, and the    *)
(* state is printed for the harness, which builds that very class and      *)
(* value with the library, runs operations on it, and has the recorded     *)
(* behaviour judged by Trace.                                              *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Atoms,      \* names of attributes to add
          Wraps,      \* names of ways to wrap the last attribute
          MaxFields, MaxWraps,
          Orders      \* byte orders
VARIABLES bo,     \* byte order of the class
          subs,   \* nested classes: definitions
          own,    \* attributes: <<[n, h, v]>>
          wraps,  \* number of wraps so far
          fields  \* number of attributes added so far
vars == <<bo, subs, own, wraps, fields>>

(* --- alphabets ---------------------------------------------------------- *)
Num(f) == [k |-> "num", f |-> f]
A(h, v) == [h |-> h, v |-> v]
Lim(m) == [k |-> "int", neg |-> FALSE, mag |-> m]
Neg(m) == [k |-> "int", neg |-> TRUE, mag |-> m]
Str(k) == [k |-> k, z |-> 0]
Rel(m, n) == [k |-> "rel", m |-> m, d |-> [x |-> "const", v |-> Lim(<<n>>)]]
Uni(t, e) == [k |-> "uni", t |-> t, enc |-> e]
DChar(f) == [k |-> "dchar", f |-> f]
TChar(b) == [k |-> "tchar", b |-> b]
Chars(n) == [k |-> "char", n |-> n]
Cust(t, cn, fac) == [k |-> "cust", t |-> t, cn |-> cn, fac |-> fac]
One == <<0, 0, 0, 0, 0, 0, 240, 63>>     \* 1.0, little endian
Flt15 == <<63, 248, 0, 0, 0, 0, 0, 0>>
Rep8(x) == [i \in 1..8 |-> x]
Long(n) == [i \in 1..n |-> 97 + (i % 20)]

Atom(a) ==
  CASE a = "bool" -> A(Num("bool8"), BoolV(TRUE))
    [] a = "i8" -> A(Num("int8"), Neg(<<2>>))
    [] a = "i8min" -> A(Num("int8"), Neg(<<128>>))
    [] a = "i8max" -> A(Num("int8"), Lim(<<127>>))
    [] a = "u8" -> A(Num("uint8"), Lim(<<18>>))
    [] a = "u8max" -> A(Num("uint8"), Lim(<<255>>))
    [] a = "i16" -> A(Num("int16"), Neg(<<2, 1>>))
    [] a = "i16min" -> A(Num("int16"), Neg(<<0, 128>>))
    [] a = "u16" -> A(Num("uint16"), Lim(<<2, 1>>))
    [] a = "u16max" -> A(Num("uint16"), Lim(<<255, 255>>))
    [] a = "i32" -> A(Num("int32"), Neg(<<4, 3, 2, 1>>))
    [] a = "i32min" -> A(Num("int32"), Neg(<<0, 0, 0, 128>>))
    [] a = "u32" -> A(Num("uint32"), Lim(<<4, 3, 2, 1>>))
    [] a = "u32max" -> A(Num("uint32"), Lim(<<255, 255, 255, 255>>))
    [] a = "i64" -> A(Num("int64"), Neg(<<8, 7, 6, 5, 4, 3, 2, 1>>))
    [] a = "i64min" -> A(Num("int64"), Neg(<<0, 0, 0, 0, 0, 0, 0, 128>>))
    [] a = "u64" -> A(Num("uint64"), Lim(<<8, 7, 6, 5, 4, 3, 2, 1>>))
    [] a = "u64max" -> A(Num("uint64"), Lim(Rep8(255)))
    [] a = "f16" -> A(Num("float16"), FltV(Flt15))
    [] a = "f32" -> A(Num("float32"), FltV(Flt15))
    [] a = "f64" -> A(Num("float64"), FltV(<<64, 9, 33, 251, 84, 68, 45, 24>>))
    [] a = "f64nan" -> A(Num("float64"), FltV(CanonNaN))
    [] a = "f32neg0" -> A(Num("float32"), FltV(<<128, 0, 0, 0, 0, 0, 0, 0>>))
    [] a = "pad1" -> A([k |-> "pad", n |-> 1], NoneV)
    [] a = "pad3" -> A([k |-> "pad", n |-> 3], NoneV)
    [] a = "char0" -> A(Chars(0), BytV(<<>>))
    [] a = "char3" -> A(Chars(3), BytV(<<97, 0, 98>>))
    [] a = "char3short" -> A(Chars(3), BytV(<<97>>))
    [] a = "char3long" -> A(Chars(3), BytV(<<97, 98, 99, 100>>))
    [] a = "char1" -> A(Chars(1), BytV(<<255>>))
    [] a = "pascal1" -> A([k |-> "pascal", n |-> 1], BytV(<<>>))
    [] a = "pascal4" -> A([k |-> "pascal", n |-> 4], BytV(<<97, 98>>))
    [] a = "pascal4full" -> A([k |-> "pascal", n |-> 4], BytV(<<97, 98, 99>>))
    [] a = "pascal4long" -> A([k |-> "pascal", n |-> 4], BytV(<<97, 98, 99, 100>>))
    [] a = "pascal300" -> A([k |-> "pascal", n |-> 300], BytV(Long(255)))
    [] a = "cint" -> A(Cust(Num("uint16"), "MyInt", FALSE), CustV("MyInt", Lim(<<2, 1>>)))
    [] a = "cintf" -> A(Cust(Num("int32"), "OtherInt", TRUE), CustV("OtherInt", Neg(<<2, 1>>)))
    [] a = "cflag" -> A(Cust(Num("bool8"), "MyFlag", FALSE), CustV("MyFlag", BoolV(TRUE)))
    [] a = "cflt" -> A(Cust(Num("float32"), "MyFloat", TRUE), CustV("MyFloat", FltV(Flt15)))
    [] a = "cbyt" -> A(Cust(Chars(3), "MyBytes", FALSE), CustV("MyBytes", BytV(<<97, 98, 99>>)))
    [] a = "cpas" -> A(Cust([k |-> "pascal", n |-> 4], "MyBytes", TRUE), CustV("MyBytes", BytV(<<97>>)))
    [] a = "ceven" -> A(Cust(Num("uint8"), "Even", FALSE), CustV("Even", Lim(<<4>>)))
    [] a = "ceven16" -> A(Cust(Num("uint16"), "Even", TRUE), CustV("Even", Lim(<<4, 1>>)))
    [] a = "d8" -> A(DChar("uint8"), BytV(<<97, 98>>))
    [] a = "d8max" -> A(DChar("uint8"), BytV(Long(255)))
    [] a = "d8over" -> A(DChar("uint8"), BytV(Long(256)))
    [] a = "d16" -> A(DChar("uint16"), BytV(<<97, 98, 99>>))
    [] a = "d16long" -> A(DChar("uint16"), BytV(Long(258)))
    [] a = "d32" -> A(DChar("uint32"), BytV(<<>>))
    [] a = "d64" -> A(DChar("uint64"), BytV(<<97>>))
    [] a = "t0" -> A(TChar(0), BytV(<<97, 98>>))
    [] a = "t0empty" -> A(TChar(0), BytV(<<>>))
    [] a = "t0term" -> A(TChar(0), BytV(<<97, 0>>))
    [] a = "t0255" -> A(TChar(0), BytV(Long(255)))
    [] a = "t0256" -> A(TChar(0), BytV(Long(256)))
    [] a = "t0257" -> A(TChar(0), BytV(Long(257)))
    [] a = "t0512" -> A(TChar(0), BytV(Long(512)))
    [] a = "tA" -> A(TChar(65), BytV(<<0, 98>>))
    [] a = "net" -> A(Str("net"), BytV(<<97, 98>>))
    [] a = "net0" -> A(Str("net"), BytV(<<>>))
    [] a = "net127" -> A(Str("net"), BytV(Long(127)))
    [] a = "net128" -> A(Str("net"), BytV(Long(128)))
    [] a = "net256" -> A(Str("net"), BytV(Long(256)))
    [] a = "net300" -> A(Str("net"), BytV(Long(300)))
    [] a = "rest" -> A(Str("cchar"), BytV(<<97, 98>>))
    [] a = "rest0" -> A(Str("cchar"), BytV(<<>>))
    [] a = "restuni" -> A(Uni(Str("cchar"), "utf8"), StrV(<<97, 8364>>))
    [] a = "u3" -> A(Uni(Chars(3), "utf8"), StrV(<<233, 97>>))
    [] a = "u5nul" -> A(Uni(Chars(5), "ascii"), StrV(<<97, 98>>))
    [] a = "ud8" -> A(Uni(DChar("uint8"), "utf8"), StrV(<<8364, 97>>))
    [] a = "ud16" -> A(Uni(DChar("uint16"), "utf16"), StrV(<<97, 128512>>))
    [] a = "ut0" -> A(Uni(TChar(0), "latin1"), StrV(<<233>>))
    [] a = "ut0empty" -> A(Uni(TChar(0), "utf8"), StrV(<<>>))
    [] a = "unet" -> A(Uni(Str("net"), "rev"), StrV(<<97, 8364>>))
    [] a = "unet130" -> A(Uni(Str("net"), "latin1"), StrV(Long(130)))
    [] a = "uasc" -> A(Uni(DChar("uint8"), "ascii"), StrV(<<97>>))
    [] a = "uxor" -> A(Uni(DChar("uint32"), "xor"), StrV(<<97, 233>>))
    [] a = "vint" -> A(Str("vint"), Lim(<<44, 1>>))
    [] a = "u24" -> A(Str("u24"), Lim(<<3, 2, 1>>))
    [] a = "relrw" -> A(Rel("rw", 200), Lim(<<100>>))
    [] a = "relw" -> A(Rel("w", 3), Lim(<<100>>))
    [] a = "relr" -> A(Rel("r", 3), Lim(<<100>>))
    \* values that do not fit
    [] a = "u8over" -> A(Num("uint8"), Lim(<<0, 1>>))
    [] a = "u8neg" -> A(Num("uint8"), Neg(<<1>>))
    [] a = "i8over" -> A(Num("int8"), Lim(<<128>>))
    [] a = "i8under" -> A(Num("int8"), Neg(<<129>>))
    [] a = "u16str" -> A(Num("uint16"), StrV(<<49>>))
    [] a = "i32over" -> A(Num("int32"), Lim(<<0, 0, 0, 128>>))
    [] a = "u64over" -> A(Num("uint64"), Lim(<<0, 0, 0, 0, 0, 0, 0, 0, 1>>))
    [] a = "u64neg" -> A(Num("uint64"), Neg(<<1>>))
    [] a = "i16none" -> A(Num("int16"), NoneV)
    [] a = "f64str" -> A(Num("float64"), StrV(<<49>>))
    [] a = "char3str" -> A(Chars(3), StrV(<<97>>))
    [] a = "char3int" -> A(Chars(3), Lim(<<1>>))
    [] a = "pascal4none" -> A([k |-> "pascal", n |-> 4], NoneV)
    [] a = "d8str" -> A(DChar("uint8"), StrV(<<97>>))
    [] a = "t0int" -> A(TChar(0), Lim(<<1>>))
    [] a = "netstr" -> A(Str("net"), StrV(<<97>>))
    [] a = "uascbad" -> A(Uni(DChar("uint8"), "ascii"), StrV(<<233>>))
    [] a = "u8surr" -> A(Uni(DChar("uint8"), "utf8"), StrV(<<55296>>))
    [] a = "ubyt" -> A(Uni(DChar("uint8"), "utf8"), BytV(<<97>>))
    [] a = "ud8over" -> A(Uni(DChar("uint8"), "utf16"), StrV(Long(128)))
    [] a = "vintneg" -> A(Str("vint"), Neg(<<1>>))
    [] a = "relwbad" -> A(Rel("w", 3), Lim(<<11>>))
    [] a = "relover" -> A(Rel("rw", 3), Lim(<<0, 1>>))
    [] a = "u24over" -> A(Str("u24"), Lim(<<0, 0, 0, 1>>))
    [] a = "restint" -> A(Str("cchar"), Lim(<<1>>))
    \* keys, flags
    [] a = "k1" -> A(Num("uint8"), Lim(<<1>>))

(* --- wrapping ------------------------------------------------------------- *)
Arr(cf, n, sf, t) == [k |-> "arr", cf |-> cf, n |-> n, sf |-> sf, t |-> t]
TupT(e) == [k |-> "tup", e |-> e]
U8 == Num("uint8")
Key(n) == [k |-> "int", neg |-> FALSE, mag |-> LimbsOf(n)]
Attr(n) == [x |-> "attr", n |-> n]
Const(v) == [x |-> "const", v |-> v]
Lbl == "q" \o ToString(wraps)
KeyName == "k" \o ToString(wraps)
(* a wrapped attribute: [keys: attributes to put before it, h, v] *)
W(h, v) == [keys |-> <<>>, h |-> h, v |-> v]
Keyed(k, h, v) == [keys |-> <<[n |-> KeyName, h |-> U8, v |-> Key(k)]>>, h |-> h, v |-> v]
Lb(d, m, df) == [k |-> "lb", d |-> d, m |-> m, df |-> df, lbl |-> Lbl]
La(r, d, m, df) == [k |-> "la", r |-> r, d |-> d, m |-> m, df |-> df, lbl |-> Lbl]
Cond(t, d, dv) == [k |-> "cond", t |-> t, d |-> d, dv |-> dv, lbl |-> Lbl]
Wrap(w, h, v) ==
  CASE w = "arr0" -> W(Arr("uint8", -1, "", h), LstV(<<>>))
    [] w = "arr1" -> W(Arr("uint8", -1, "", h), LstV(<<v>>))
    [] w = "arr2" -> W(Arr("uint16", -1, "", h), LstV(<<v, v>>))
    [] w = "arr3" -> W(Arr("uint32", -1, "", h), LstV(<<v, v, v>>))
    [] w = "fix0" -> W(Arr("", 0, "", h), LstV(<<>>))
    [] w = "fix1" -> W(Arr("", 1, "", h), LstV(<<v>>))
    [] w = "fix2" -> W(Arr("", 2, "", h), LstV(<<v, v>>))
    [] w = "fix2bad" -> W(Arr("", 2, "", h), LstV(<<v>>))
    [] w = "siz0" -> W(Arr("uint16", -1, "uint32", h), LstV(<<>>))
    [] w = "siz1" -> W(Arr("uint8", -1, "uint8", h), LstV(<<v>>))
    [] w = "siz2" -> W(Arr("uint8", -1, "uint16", h), LstV(<<v, v>>))
    [] w = "siz64" -> W(Arr("uint16", -1, "uint64", h), LstV(<<v, v>>))
    [] w = "fsz1" -> W(Arr("", 1, "uint8", h), LstV(<<v>>))
    [] w = "fsz2" -> W(Arr("", 2, "uint32", h), LstV(<<v, v>>))
    [] w = "tup1" -> W(TupT(<<h>>), TupV(<<v>>))
    [] w = "tupa" -> W(TupT(<<U8, h>>), TupV(<<Key(7), v>>))
    [] w = "tupb" -> W(TupT(<<h, Num("uint16")>>), TupV(<<v, Key(513)>>))
    [] w = "tupbad" -> W(TupT(<<U8, h>>), TupV(<<v>>))
    [] w = "lb1" -> Keyed(1, Lb(Attr(KeyName), <<[key |-> Key(1), t |-> h], [key |-> Key(2), t |-> Num("uint64")]>>, <<>>), v)
    [] w = "lb2" -> Keyed(2, Lb(Attr(KeyName), <<[key |-> Key(1), t |-> Num("uint64")], [key |-> Key(2), t |-> h]>>,
                                <<Num("uint16")>>), v)
    [] w = "lbd" -> Keyed(9, Lb(Attr(KeyName), <<[key |-> Key(1), t |-> Num("uint64")]>>, <<h>>), v)
    [] w = "lbn" -> Keyed(9, Lb(Attr(KeyName), <<[key |-> Key(1), t |-> h]>>, <<>>), v)
    [] w = "la1" -> W(La(U8, Const(Key(5)), <<[key |-> Key(4), t |-> TupT(<<U8, Num("uint64")>>)],
                                              [key |-> Key(5), t |-> TupT(<<U8, h>>)]>>, <<>>), TupV(<<Key(5), v>>))
    [] w = "la16" -> W(La(Num("uint16"), Const(Key(258)), <<[key |-> Key(258), t |-> TupT(<<Num("uint16"), h>>)]>>,
                          <<TupT(<<Num("uint16"), U8>>)>>), TupV(<<Key(258), v>>))
    [] w = "lad" -> W(La(U8, Const(Key(6)), <<[key |-> Key(4), t |-> Num("uint64")]>>, <<TupT(<<U8, h>>)>>),
                      TupV(<<Key(6), v>>))
    [] w = "con1" -> Keyed(1, Cond(h, Attr(KeyName), <<NoneV>>), v)
    [] w = "con0" -> Keyed(0, Cond(h, Attr(KeyName), <<NoneV>>), NoneV)
    [] w = "con0v" -> Keyed(0, Cond(h, Attr(KeyName), <<NoneV>>), v)
    [] w = "con0d" -> Keyed(0, Cond(h, Attr(KeyName), <<Key(42)>>), Key(42))
    [] w = "cont" -> W(Cond(h, Const(BoolV(TRUE)), <<NoneV>>), v)
    [] w = "conf" -> W(Cond(h, Const(Key(0)), <<TupV(<<>>)>>), TupV(<<>>))

Name(i) == "a" \o ToString(i)
Top == own[Len(own)]

Init == /\ bo \in Orders
        /\ subs = <<>> /\ own = <<>> /\ wraps = 0 /\ fields = 0

Add == /\ fields < MaxFields
       /\ \E a \in Atoms :
            own' = Append(own, [n |-> IF Atom(a).h.k = "pad" THEN "_" ELSE Name(fields), h |-> Atom(a).h, v |-> Atom(a).v])
       /\ fields' = fields + 1
       /\ UNCHANGED <<bo, subs, wraps>>

(* wrap the last attribute *)
WrapLast ==
  /\ wraps < MaxWraps /\ own # <<>> /\ Top.h.k # "pad"
  /\ \E w \in Wraps \ {"nest", "nestbe", "nestle", "nestarr"} :
       LET x == Wrap(w, Top.h, Top.v) IN
       /\ (Top.h.k = "cond") => w \in {"arr1", "tupa", "fix2", "tupb"}
       /\ own' = SubSeq(own, 1, Len(own) - 1) \o x.keys \o <<[Top EXCEPT !.h = x.h, !.v = x.v]>>
  /\ wraps' = wraps + 1
  /\ UNCHANGED <<bo, subs, fields>>

(* everything so far becomes a nested class *)
Nest ==
  /\ wraps < MaxWraps /\ own # <<>>
  /\ \E w \in Wraps \cap {"nest", "nestbe", "nestle", "nestarr"} :
       LET c == [n |-> "S" \o ToString(Len(subs)),
                 bo |-> CASE w = "nestbe" -> ">" [] w = "nestle" -> "<" [] OTHER -> bo,
                 bases |-> <<>>, gp |-> <<>>, mode |-> "strict", init |-> TRUE,
                 own |-> [i \in 1..Len(own) |-> [n |-> own[i].n, h |-> own[i].h]]]
           fs == SelectSeq(own, LAMBDA x : x.h.k # "pad")
           ref == [k |-> "ref", n |-> c.n]
           val == ObjV(c.n, [i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> fs[i].v]])
       IN /\ subs' = Append(subs, c)
          /\ own' = IF w = "nestarr" THEN <<[n |-> "s", h |-> Arr("uint8", -1, "", ref), v |-> LstV(<<val, val>>)]>>
                    ELSE <<[n |-> "s", h |-> ref, v |-> val]>>
  /\ wraps' = wraps + 1
  /\ UNCHANGED <<bo, fields>>

Next == Add \/ WrapLast \/ Nest
Spec == Init /\ [][Next]_vars

(* --- laws -------------------------------------------------------------------- *)
Def(o) == [n |-> "R", bo |-> o, bases |-> <<>>, gp |-> <<>>, mode |-> "strict", init |-> TRUE,
           own |-> [i \in 1..Len(own) |-> [n |-> own[i].n, h |-> own[i].h]]]
RECURSIVE Defs(_, _)
Defs(cs, ds) == IF ds = <<>> THEN [ok |-> TRUE, cs |-> cs]
                ELSE LET r == Define(ds[1], cs) IN
                     IF r.ok THEN Defs(Put(cs, r.cl.n, r.cl), Tail(ds)) ELSE [ok |-> FALSE]
RecIn(o) == LET r == Defs(<<>>, Append(subs, Def(o))) IN IF r.ok THEN <<r.cs["R"].rec>> ELSE <<>>
Val == LET fs == SelectSeq(own, LAMBDA x : x.h.k # "pad") IN
       ObjV("R", [i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> fs[i].v]])

Good == own # <<>>
Swap(x) == CASE x = "!" -> ">" [] x = ">" -> "!" [] x = "=" -> "<" [] x = "<" -> "=" [] x = "" -> "@" [] x = "@" -> ""

Laws ==
  LET rc == RecIn(bo) IN
  (Good /\ rc # <<>>) =>
  LET r == rc[1]
      e == EncRec(r, Val)
      fin == Final(r)
  IN e.ok =>
     LET d == DecRec(r, e.b, 0)
         n == Len(e.b)
         mid == DecRec(r, <<1, 2, 3>> \o e.b, 3)
         tail == DecRec(r, e.b \o <<4, 5, 0, 65>>, 0)
         e2 == EncRec(r, d.v)
         other == RecIn(Swap(bo))
         far == EncRec(RecIn(IF Big(bo) THEN "<" ELSE ">")[1], Val)
     IN \* what was packed can be unpacked, all of it, to something that packs the same
        /\ d.ok /\ d.p = n
        /\ e2.ok /\ e2.b = e.b
        /\ LET d2 == DecRec(r, e2.b, 0) IN d2.ok /\ SameV(d2.v, d.v)
        \* wherever it is, whatever is around it
        /\ mid.ok /\ SameV(mid.v, d.v) /\ mid.p = n + 3
        /\ ~fin => (tail.ok /\ SameV(tail.v, d.v) /\ tail.p = n)
        \* nothing less will do
        /\ ~fin => \A i \in 0..Min2(n - 1, 40) : ~DecRec(r, SubSeq(e.b, 1, i), 0).ok
        /\ (~fin /\ n > 41) => ~DecRec(r, SubSeq(e.b, 1, n - 1), 0).ok
        \* aliases of byte orders; without alignment all orders take the same room
        /\ EncRec(other[1], Val).b = e.b
        /\ (~Aligned(bo)) => (far.ok /\ Len(far.b) = n)
(* whether it can be packed does not depend on the byte order *)
Representable ==
  LET rc == RecIn(bo) IN
  (Good /\ rc # <<>>) =>
    \A o \in {"<", ">", "@"} : EncRec(RecIn(o)[1], Val).ok = EncRec(rc[1], Val).ok
(* rest-of-data attributes are the only reason to refuse a class here *)
Refused == (Good /\ Defs(<<>>, subs).ok /\ RecIn(bo) = <<>>) =>
             \E i \in 1..Len(own) : Final(Resolve(own[i].h, Defs(<<>>, subs).cs)) \/ BadFinal(Resolve(own[i].h, Defs(<<>>, subs).cs))

Export == Good => PrintT("@@" \o ToJson([subs |-> subs, c |-> Def(bo), v |-> Val]))
Constraint == own = <<>> \/ Defs(<<>>, subs).ok    \* a refused nested class ends it
=============================================================================
