-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire semantics: what every hint type writes for a value and what it *)
(* reads back, for any nesting of types.                                   *)
(*                                                                         *)
(* Types are records tagged by k:                                          *)
(*   num f | pad n | pascal n | char n          "basic" types              *)
(*   cust (t: a basic type, cn, fac)            SerializeAs, also basic    *)
(*   dchar f | tchar b | net | cchar            other strings              *)
(*   uni (t: a string type, enc)                                           *)
(*   arr (cf: count format or "", n: fixed length or -1, sf: data size     *)
(*        format or "", t: item type)                                      *)
(*   tup e                                                                 *)
(*   rec (cls, bo, fs: <<[n,t]>>)               a class (resolved)         *)
(*   self                                                                  *)
(*   lb (d: expression, m: <<[key,t]>>, df: <<>> or <<t>>, lbl)            *)
(*   la (r: type read ahead, d, m, df, lbl)                                *)
(*   cond (t, d, dv: default values, lbl)                                  *)
(*   vint | u24 | rel (m, d)                    user written serializers   *)
(*                                                                         *)
(* Values are records tagged by k as well: int, bool, flt, byt, str, lst,  *)
(* tup, obj, cust, none, odd.                                              *)
(*                                                                         *)
(* Results: [ok |-> TRUE, ...] or [ok |-> FALSE, e |-> kind] with kind     *)
(*   "any"    some exception                                               *)
(*   "value"  a ValueError (where the documentation promises it)           *)
(*   "unspec" outside of what is specified (inexact floats)                *)
(***************************************************************************)
EXTENDS Numbers, Text, TLC

Fail(e) == [ok |-> FALSE, e |-> e, at |-> 0]
(* a fault after n bytes of something *)
After(n, r) == [r EXCEPT !.at = @ + n]
NoneV == [k |-> "none", z |-> 0]
BoolV(b) == [k |-> "bool", b |-> b]
IntV(i) == [k |-> "int", neg |-> i.neg, mag |-> i.mag]
NatV(n) == [k |-> "int", neg |-> FALSE, mag |-> LimbsOf(n)]
FltV(d) == [k |-> "flt", d |-> d]
BytV(s) == [k |-> "byt", s |-> s]
StrV(c) == [k |-> "str", c |-> c]
LstV(i) == [k |-> "lst", i |-> i]
TupV(e) == [k |-> "tup", e |-> e]
ObjV(c, f) == [k |-> "obj", cls |-> c, f |-> f]
CustV(cn, w) == [k |-> "cust", cn |-> cn, w |-> w]

(* --- byte orders -------------------------------------------------------- *)
(* "" and "@" mean native order with native alignment, "=" native order     *)
(* without; native is little endian on the machines this runs on.           *)
Big(bo) == bo \in {">", "!"}
Aligned(bo) == bo \in {"", "@"}
InOrder(bo, le) == IF Big(bo) THEN Reverse(le) ELSE le

FSize(f) == CASE f \in {"bool8", "int8", "uint8"} -> 1
              [] f \in {"int16", "uint16", "float16"} -> 2
              [] f \in {"int32", "uint32", "float32"} -> 4
              [] f \in {"int64", "uint64", "float64"} -> 8
FSigned(f) == f \in {"int8", "int16", "int32", "int64"}
FFloat(f) == f \in {"float16", "float32", "float64"}
FMant(f) == IF f = "float16" THEN <<5, 10>> ELSE <<8, 23>>

CanonNaN == <<127, 248, 0, 0, 0, 0, 0, 0>>
OtherNaN == <<127, 248, 0, 0, 0, 0, 0, 1>>
IsNaN(d) == /\ d[1] % 128 = 127 /\ d[2] >= 240
            /\ (d[2] % 16 # 0 \/ \E i \in 3..8 : d[i] # 0)
CanonFlt(d) == IF IsNaN(d) /\ d # CanonNaN THEN OtherNaN ELSE d

(* equality of observations: NaNs are not told apart *)
RECURSIVE SameV(_, _)
SameV(a, b) ==
  \/ a = b
  \/ /\ a.k = b.k
     /\ CASE a.k = "flt" -> IsNaN(a.d) /\ IsNaN(b.d)
          [] a.k = "lst" -> Len(a.i) = Len(b.i) /\ \A j \in 1..Len(a.i) : SameV(a.i[j], b.i[j])
          [] a.k = "tup" -> Len(a.e) = Len(b.e) /\ \A j \in 1..Len(a.e) : SameV(a.e[j], b.e[j])
          [] a.k = "cust" -> a.cn = b.cn /\ SameV(a.w, b.w)
          [] a.k = "obj" -> /\ a.cls = b.cls /\ Len(a.f) = Len(b.f)
                            /\ \A j \in 1..Len(a.f) : a.f[j].n = b.f[j].n /\ SameV(a.f[j].v, b.f[j].v)
          [] OTHER -> FALSE

(* Python's == on the values (floats by value, NaN different from itself; *)
(* bools are the integers 0 and 1)                                          *)
IsZeroF(d) == d[1] % 128 = 0 /\ \A i \in 2..8 : d[i] = 0
AsInt(v) == IF v.k = "bool" THEN NatV(IF v.b THEN 1 ELSE 0) ELSE v
RECURSIVE PyEq(_, _)
PyEq(x, y) ==
  LET i == AsInt(x)
      j == AsInt(y)
      Flt(v) == LET d == IntAsFlt(v.neg, v.mag) IN IF d = <<>> THEN NoneV ELSE FltV(d[1])
      a == IF i.k = "int" /\ j.k = "flt" THEN Flt(i) ELSE i
      b == IF i.k = "flt" /\ j.k = "int" THEN Flt(j) ELSE j IN
  /\ a.k = b.k
  /\ CASE a.k = "flt" -> ~IsNaN(a.d) /\ ~IsNaN(b.d) /\ (a.d = b.d \/ (IsZeroF(a.d) /\ IsZeroF(b.d)))
       [] a.k = "lst" -> Len(a.i) = Len(b.i) /\ \A n \in 1..Len(a.i) : PyEq(a.i[n], b.i[n])
       [] a.k = "tup" -> Len(a.e) = Len(b.e) /\ \A n \in 1..Len(a.e) : PyEq(a.e[n], b.e[n])
       [] a.k = "cust" -> a.cn = b.cn /\ PyEq(a.w, b.w)
       [] a.k = "obj" -> /\ a.cls = b.cls /\ Len(a.f) = Len(b.f)
                         /\ \A n \in 1..Len(a.f) : PyEq(a.f[n].v, b.f[n].v)
       [] OTHER -> a = b

(* lists and tuples find NaN equal to itself when it is the same object *)
RECURSIVE HasNaN(_)
HasNaN(v) == CASE v.k = "flt" -> IsNaN(v.d)
               [] v.k = "lst" -> \E j \in 1..Len(v.i) : HasNaN(v.i[j])
               [] v.k = "tup" -> \E j \in 1..Len(v.e) : HasNaN(v.e[j])
               [] v.k = "cust" -> HasNaN(v.w)
               [] v.k = "obj" -> \E j \in 1..Len(v.f) : HasNaN(v.f[j].v)
               [] OTHER -> FALSE

(* --- attributes, expressions of deciders and conditions ----------------- *)
HasAttr(f, n) == \E i \in 1..Len(f) : f[i].n = n
GetAttr(f, n) == f[CHOOSE i \in 1..Len(f) : f[i].n = n].v
EvErr == [k |-> "err", miss |-> FALSE]
EvMiss == [k |-> "err", miss |-> TRUE]     \* an attribute that is not there (yet)

SizeOf(v) == CASE v.k = "byt" -> Len(v.s) [] v.k = "str" -> Len(v.c) [] v.k = "lst" -> Len(v.i)
               [] v.k = "tup" -> Len(v.e) [] v.k = "cust" /\ v.cn = "MyBytes" -> Len(v.w.s)
               [] OTHER -> -1

Truthy(v) ==
  CASE v.k = "int" -> v.mag # <<>>
    [] v.k = "bool" -> v.b
    [] v.k = "flt" -> ~IsZeroF(v.d)
    [] v.k = "none" -> FALSE
    [] v.k \in {"byt", "str", "lst", "tup"} -> SizeOf(v) > 0
    [] v.k = "cust" /\ v.cn = "MyFlag" -> v.w.k = "bool" /\ v.w.b
    [] v.k = "cust" /\ v.cn = "MyBytes" -> SizeOf(v) > 0
    [] OTHER -> TRUE

SmallInt(v) == IF v.neg THEN 0 - SmallNat(v.mag) ELSE SmallNat(v.mag)

Err(a) == IF a.k = "err" THEN a ELSE EvErr
RECURSIVE Eval(_, _)
Eval(x, f) ==
  CASE x.x = "attr" -> IF HasAttr(f, x.n) THEN GetAttr(f, x.n) ELSE EvMiss
    [] x.x = "const" -> x.v
    [] x.x = "dot" -> LET a == Eval(x.a, f) IN
                      IF a.k = "obj" /\ HasAttr(a.f, x.n) THEN GetAttr(a.f, x.n) ELSE Err(a)
    [] x.x = "at" -> LET a == Eval(x.a, f) IN
                     IF a.k = "lst" /\ Len(a.i) > x.i THEN a.i[x.i + 1]
                     ELSE IF a.k = "tup" /\ Len(a.e) > x.i THEN a.e[x.i + 1] ELSE Err(a)
    [] x.x = "len" -> LET a == Eval(x.a, f) IN
                      IF a.k = "err" \/ SizeOf(a) < 0 THEN Err(a) ELSE NatV(SizeOf(a))
    [] x.x = "mod" -> LET a == Eval(x.a, f) IN
                      IF a.k = "int" THEN NatV(IF a.neg THEN (x.c - ModNat(a.mag, x.c)) % x.c ELSE ModNat(a.mag, x.c))
                      ELSE IF a.k = "bool" THEN NatV((IF a.b THEN 1 ELSE 0) % x.c) ELSE Err(a)
    [] x.x = "ge" -> LET a == Eval(x.a, f) IN
                     IF a.k = "int" THEN BoolV(SmallInt(a) >= x.c)
                     ELSE IF a.k = "bool" THEN BoolV((IF a.b THEN 1 ELSE 0) >= x.c) ELSE Err(a)
    [] x.x = "eq" -> LET a == Eval(x.a, f) IN IF a.k = "err" THEN a ELSE BoolV(PyEq(a, x.v))
    [] x.x = "not" -> LET a == Eval(x.a, f) IN IF a.k = "err" THEN a ELSE BoolV(~Truthy(a))
    [] x.x = "and" -> LET a == Eval(x.a, f) IN
                      IF a.k = "err" \/ ~Truthy(a) THEN a ELSE Eval(x.b, f)
    [] x.x = "or" -> LET a == Eval(x.a, f) IN
                     IF a.k = "err" \/ Truthy(a) THEN a ELSE Eval(x.b, f)
    [] x.x = "guard" -> LET a == Eval(x.a, f) IN      \* raises unless a is truthy
                        IF a.k = "err" \/ ~Truthy(a) THEN Err(a) ELSE Eval(x.b, f)

(* what Python can look up in a mapping *)
RECURSIVE Hashable(_)
Hashable(v) == CASE v.k \in {"lst", "obj"} -> FALSE
                 [] v.k = "tup" -> \A i \in 1..Len(v.e) : Hashable(v.e[i])
                 [] OTHER -> TRUE

(* alternative of a union for a decision: <<>> if there is none *)
Pick(t, key) ==
  IF \E i \in 1..Len(t.m) : PyEq(t.m[i].key, key)
  THEN <<t.m[CHOOSE i \in 1..Len(t.m) : PyEq(t.m[i].key, key)].t>>
  ELSE t.df

(* --- basic types --------------------------------------------------------- *)
RECURSIVE Basic(_)
Basic(t) == t.k \in {"num", "pad", "pascal", "char"} \/ (t.k = "cust" /\ Basic(t.t))

RECURSIVE BSize(_)
BSize(t) == CASE t.k = "num" -> FSize(t.f) [] t.k = "cust" -> BSize(t.t) [] OTHER -> t.n
RECURSIVE BAlign(_, _)
BAlign(t, bo) == CASE t.k = "num" -> (IF Aligned(bo) THEN FSize(t.f) ELSE 1)
                   [] t.k = "cust" -> BAlign(t.t, bo)
                   [] OTHER -> 1
Gap(off, align) == (align - (off % align)) % align

EOk(b) == [ok |-> TRUE, b |-> b, log |-> <<>>]

EncNum(f, v, bo) ==
  IF f = "bool8"
  THEN IF v.k \in {"bool", "int"} THEN EOk(<<IF Truthy(v) THEN 1 ELSE 0>>) ELSE Fail("unspec")
  ELSE IF FFloat(f)
  THEN IF v.k # "flt" THEN (IF v.k \in {"int", "bool"} THEN Fail("unspec") ELSE Fail("any"))
       ELSE IF v.d = OtherNaN THEN Fail("unspec")
       ELSE IF f = "float64" THEN EOk(InOrder(bo, Reverse(v.d)))
       ELSE LET r == Narrow(v.d, FMant(f)[1], FMant(f)[2]) IN
            CASE r.st = "ok" -> EOk(InOrder(bo, Reverse(r.b)))
              \* C's own conversion is used in native order, which gives infinity
              [] r.st = "overflow" -> Fail(IF Aligned(bo) /\ f = "float32" THEN "unspec" ELSE "any")
              [] OTHER -> Fail("unspec")
  ELSE IF v.k = "bool" THEN EOk(InOrder(bo, PadTo(<<IF v.b THEN 1 ELSE 0>>, FSize(f))))
  ELSE IF v.k # "int" THEN Fail("any")
  ELSE IF ~(IF FSigned(f) THEN FitsSigned(v.neg, v.mag, FSize(f)) ELSE FitsUnsigned(v.neg, v.mag, FSize(f)))
  THEN Fail("any")
  ELSE EOk(InOrder(bo, IntBytes(v.neg, v.mag, FSize(f))))

DecNum(f, b, bo) ==      \* b: exactly FSize(f) bytes
  LET le == InOrder(bo, b) IN
  IF f = "bool8" THEN BoolV(b[1] # 0)
  ELSE IF f = "float64" THEN FltV(CanonFlt(Reverse(le)))
  ELSE IF FFloat(f) THEN FltV(CanonFlt(Widen(Reverse(le), FMant(f)[1], FMant(f)[2])))
  ELSE IF FSigned(f) THEN IntV(SignedOf(le)) ELSE IntV(UnsignedOf(le))

FixTo(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o Rep(n - Len(s), 0)

(* the class itself, as part of one of its objects: in its own byte order,   *)
(* whatever the order the object was given                                   *)
Node(c) == [c EXCEPT !.bo = c.own]

RECURSIVE EncBasic(_, _, _)
EncBasic(t, v, bo) ==
  CASE t.k \notin {"cust", "pad"} /\ v.k = "cust" -> Fail("unspec")    \* may be a number or string all the same
    [] t.k = "num" -> EncNum(t.f, v, bo)
    [] t.k = "pad" -> EOk(Rep(t.n, 0))
    [] t.k = "char" -> IF v.k = "byt" THEN EOk(FixTo(v.s, t.n)) ELSE Fail("any")
    [] t.k = "pascal" -> IF v.k # "byt" THEN Fail("any")
                         ELSE LET s == SubSeq(v.s, 1, Min2(Len(v.s), t.n - 1))
                              IN EOk(<<Min2(Len(s), 255)>> \o FixTo(s, t.n - 1))
    [] t.k = "cust" -> IF v.k = "cust" /\ v.cn = t.cn THEN EncBasic(t.t, v.w, bo)
                       ELSE IF v.k = "cust" THEN Fail("unspec") ELSE EncBasic(t.t, v, bo)

(* factories of custom types may reject values: cn "Even" takes even ints only *)
CustAccepts(cn, w) == ~(cn = "Even" /\ w.k = "int" /\ w.mag # <<>> /\ w.mag[1] % 2 = 1)

RECURSIVE DecBasic(_, _, _)
DecBasic(t, b, bo) ==    \* b: exactly BSize(t) bytes; pads give no value
  CASE t.k = "num" -> [ok |-> TRUE, v |-> DecNum(t.f, b, bo)]
    [] t.k = "pad" -> [ok |-> TRUE, v |-> NoneV]
    [] t.k = "char" -> [ok |-> TRUE, v |-> BytV(b)]
    [] t.k = "pascal" -> [ok |-> TRUE, v |-> BytV(SubSeq(b, 2, 1 + Min2(b[1], t.n - 1)))]
    [] t.k = "cust" -> LET r == DecBasic(t.t, b, bo) IN
                       IF CustAccepts(t.cn, r.v) THEN [ok |-> TRUE, v |-> CustV(t.cn, r.v)]
                       ELSE Fail("any")

(* the call of a custom type or factory that makes an unpacked value *)
CustLog(t, v) == IF t.k = "cust" THEN <<[lbl |-> "#" \o t.cn, f |-> <<[n |-> "w", v |-> v.w]>>]>> ELSE <<>>

(* a count, as the unsigned number format f *)
EncCount(f, n, bo) == EncNum(f, NatV(n), bo)

(* header of an array: count and/or data size, one struct *)
HeadSize(t, bo) ==
  LET c == IF t.cf = "" THEN 0 ELSE FSize(t.cf) IN
  IF t.sf = "" THEN c
  ELSE c + (IF t.cf # "" /\ Aligned(bo) THEN Gap(c, FSize(t.sf)) ELSE 0) + FSize(t.sf)
EncHead(t, n, size, bo) ==
  LET c == IF t.cf = "" THEN EOk(<<>>) ELSE EncCount(t.cf, n, bo)
      s == IF t.sf = "" THEN EOk(<<>>) ELSE EncCount(t.sf, size, bo)
  IN IF ~c.ok THEN c ELSE IF ~s.ok THEN s
     ELSE EOk(c.b \o Rep(HeadSize(t, bo) - Len(c.b) - Len(s.b), 0) \o s.b)

(* --- strings ------------------------------------------------------------- *)
EncStr(t, s, bo) ==
  CASE t.k = "char" -> EOk(FixTo(s, t.n))
    [] t.k = "dchar" -> LET c == EncCount(t.f, Len(s), bo) IN
                        IF c.ok THEN EOk(c.b \o s) ELSE c
    [] t.k = "tchar" -> EOk(IF s # <<>> /\ s[Len(s)] = t.b THEN s ELSE Append(s, t.b))
    [] t.k = "net" -> IF Len(s) < 128 THEN EOk(<<Len(s)>> \o s)
                      ELSE IF Len(s) > 32767 THEN Fail("value")
                      ELSE EOk(<<128 + (Len(s) % 128), Len(s) \div 128>> \o s)
    [] t.k = "cchar" -> EOk(s)

DOk(v, p) == [ok |-> TRUE, v |-> v, p |-> p, log |-> <<>>]

(* n bytes of d after the first p, if there are as many *)
Take(d, p, n) == IF n > Len(d) - p THEN Fail("any")
                 ELSE [ok |-> TRUE, s |-> SubSeq(d, p + 1, p + n), p |-> p + n]

DecStr(t, d, p, bo) ==   \* [ok, s, p]
  CASE t.k = "char" -> Take(d, p, t.n)
    [] t.k = "dchar" -> LET h == Take(d, p, FSize(t.f)) IN
                        IF ~h.ok THEN h
                        ELSE Take(d, h.p, SmallNat(UnsignedOf(InOrder(bo, h.s)).mag))
    [] t.k = "net" -> LET h == Take(d, p, 1) IN
                      IF ~h.ok THEN h
                      ELSE IF h.s[1] < 128 THEN Take(d, h.p, h.s[1])
                      ELSE LET g == Take(d, p, 2) IN
                           IF ~g.ok THEN g ELSE Take(d, g.p, g.s[1] - 128 + 128 * g.s[2])
    [] t.k = "tchar" -> LET rest == SubSeq(d, p + 1, Len(d))
                            z == SelectInSeq(rest, LAMBDA x : x = t.b)
                        IN IF z = 0 THEN Fail("value")
                           ELSE [ok |-> TRUE, s |-> SubSeq(rest, 1, z - 1), p |-> p + z]
    [] t.k = "cchar" -> [ok |-> TRUE, s |-> SubSeq(d, p + 1, Len(d)), p |-> Len(d)]

IsStr(t) == t.k \in {"char", "dchar", "tchar", "net", "cchar"}

(* --- user written serializers of the harness ------------------------------ *)
RECURSIVE VarInt(_)
VarInt(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VarInt(n \div 128)
RECURSIVE UnVarInt(_, _, _, _)
UnVarInt(d, p, sh, acc) ==
  IF p >= Len(d) \/ sh > 3 THEN Fail("any")
  ELSE LET b == d[p + 1] IN
       IF b < 128 THEN DOk(NatV(acc + b * (128^sh)), p + 1)
       ELSE UnVarInt(d, p + 1, sh + 1, acc + (b - 128) * (128^sh))

(* one byte that depends on the object around: m = "rw" moves it by d both   *)
(* ways, "w" and "r" only look at d when writing and when reading            *)
RelBase(v) == IF v.neg THEN 0 ELSE ModNat(v.mag, 256)
RelBad(n, base) == n % 8 = base % 8
EncRel(t, v, f) ==
  LET key == IF t.m = "r" THEN NatV(0) ELSE Eval(t.d, f) IN
  IF key.k # "int" \/ v.k # "int" \/ v.neg \/ Len(v.mag) > 1 THEN Fail("any")
  ELSE IF t.m = "w" /\ RelBad(SmallNat(v.mag), RelBase(key)) THEN Fail("any")
  ELSE EOk(<<(SmallNat(v.mag) + IF t.m = "rw" THEN RelBase(key) ELSE 0) % 256>>)
DecRel(t, d, p, f) ==
  LET key == IF t.m = "w" THEN NatV(0) ELSE Eval(t.d, f)
      s == Take(d, p, 1) IN
  IF key.k # "int" THEN Fail(IF key.k = "err" /\ key.miss THEN "miss" ELSE "any")
  ELSE IF ~s.ok THEN s
  ELSE IF t.m = "r" /\ RelBad(s.s[1], RelBase(key)) THEN Fail("any")
  ELSE DOk(NatV((s.s[1] + 256 - IF t.m = "rw" THEN RelBase(key) ELSE 0) % 256), s.p)

(* --- packing --------------------------------------------------------------*)
(* ctx: [c |-> class record, f |-> attributes] of the object that holds the  *)
(* attribute; log: for every decision the label and the object it is about.  *)
WithLog(r, log) == IF r.ok THEN [r EXCEPT !.log = log \o @] ELSE r

(* of two faults either may be reported: a ValueError is only promised when  *)
(* every fault is one                                                       *)
Worse(a, b) == IF b.ok THEN a ELSE [(IF a.e = "unspec" \/ b.e = "value" THEN a ELSE b) EXCEPT !.at = Max2(a.at, b.at)]

RECURSIVE Enc(_, _, _, _), EncSeq(_, _, _, _), EncRec(_, _)

(* objects of other classes pack as what they are; not specified *)
EncRec(r, v) ==
  IF v.k # "obj" THEN Fail("any")
  ELSE IF v.cls # r.cls THEN Fail("unspec")
  ELSE IF \E i \in 1..Len(r.fs) : r.fs[i].t.k # "pad" /\ ~(r.fs[i].t.k = "cond" /\ r.fs[i].t.t.k = "pad")
                                  /\ ~HasAttr(v.f, r.fs[i].n) THEN Fail("any")
  ELSE EncSeq([i \in 1..Len(r.fs) |-> r.fs[i].t],
              [i \in 1..Len(r.fs) |-> IF HasAttr(v.f, r.fs[i].n) THEN GetAttr(v.f, r.fs[i].n) ELSE NoneV],
              r.bo, [c |-> r, f |-> v.f])

(* a sequence of types: consecutive basic ones form one struct; g is the     *)
(* number of bytes of the current struct, and meaningless outside of one     *)
EncSeq(ts, vs, bo, ctx) ==
  LET Step(a, i) ==
        IF ~a.ok THEN Worse(a, IF a.e = "value" THEN Enc(ts[i], vs[i], bo, ctx) ELSE a)
        ELSE IF Basic(ts[i])
        THEN LET e == EncBasic(ts[i], vs[i], bo)
                 gap == Gap(a.g, BAlign(ts[i], bo))
             IN IF ~e.ok THEN After(Len(a.b) + gap, e)
                ELSE [a EXCEPT !.b = @ \o Rep(gap, 0) \o e.b, !.g = @ + gap + Len(e.b)]
        ELSE LET e == Enc(ts[i], vs[i], bo, ctx) IN
             IF ~e.ok THEN After(Len(a.b), e) ELSE [a EXCEPT !.b = @ \o e.b, !.g = 0, !.log = @ \o e.log]
  IN FoldLeft(Step, [ok |-> TRUE, b |-> <<>>, g |-> 0, log |-> <<>>], [i \in 1..Len(ts) |-> i])

Enc(t, v, bo, ctx) ==
  CASE Basic(t) -> EncBasic(t, v, bo)
    [] t.k # "cust" /\ v.k = "cust" /\ t.k \notin {"lb", "la", "cond"} -> Fail("unspec")
    [] t.k \in {"dchar", "tchar", "net", "cchar"} ->
         IF v.k = "byt" THEN EncStr(t, v.s, bo) ELSE Fail("any")
    [] t.k = "uni" ->
         IF v.k # "str" THEN Fail("any")
         ELSE LET s == TextEnc(t.enc, v.c) IN IF s.ok THEN EncStr(t.t, s.s, bo) ELSE Fail("any")
    [] t.k = "arr" ->
         IF v.k # "lst" THEN Fail(IF v.k \in {"tup", "byt", "str"} THEN "unspec" ELSE "any")
         ELSE LET Step(a, x) == IF ~a.ok THEN Worse(a, IF a.e = "value" THEN Enc(t.t, x, bo, ctx) ELSE a)
                                ELSE LET e == Enc(t.t, x, bo, ctx) IN
                                     IF e.ok THEN [a EXCEPT !.b = @ \o e.b, !.log = @ \o e.log] ELSE After(Len(a.b), e)
                  body == FoldLeft(Step, EOk(<<>>), v.i)
                  head == EncHead(t, Len(v.i), Len(body.b), bo)
                  front == 16      \* no header takes more
              IN IF t.n >= 0 /\ Len(v.i) # t.n
                 THEN After(front + (IF body.ok THEN Len(body.b) ELSE 0), Worse(Fail("value"), body))
                 ELSE IF ~body.ok THEN After(front, body) ELSE IF ~head.ok THEN head
                 ELSE [body EXCEPT !.b = head.b \o @]
    [] t.k = "tup" ->
         IF v.k \in {"lst", "byt", "str"} THEN Fail("unspec")
         ELSE IF v.k # "tup" \/ Len(v.e) # Len(t.e) THEN Fail("any")
         ELSE LET r == EncSeq(t.e, v.e, bo, ctx) IN
              IF r.ok THEN [ok |-> TRUE, b |-> r.b, log |-> r.log] ELSE r
    [] t.k = "rec" -> EncRec(t, v)
    [] t.k = "self" -> EncRec(Node(ctx.c), v)
    [] t.k \in {"lb", "la"} ->
         LET key == Eval(t.d, ctx.f)
             alt == Pick(t, key)
         IN IF key.k = "err" THEN Fail("any")
            ELSE IF ~Hashable(key) THEN Fail("unspec")
            ELSE IF alt = <<>> THEN Fail("value")
            ELSE WithLog(Enc(alt[1], v, bo, ctx), <<[lbl |-> t.lbl, f |-> ctx.f]>>)
    [] t.k = "cond" ->
         LET c == Eval(t.d, ctx.f) IN
         IF c.k = "err" THEN Fail("any")
         ELSE IF Truthy(c) THEN WithLog(Enc(t.t, v, bo, ctx), <<[lbl |-> t.lbl, f |-> ctx.f]>>)
         ELSE [ok |-> TRUE, b |-> <<>>, log |-> <<[lbl |-> t.lbl, f |-> ctx.f]>>]
    [] t.k = "vint" -> IF v.k = "int" /\ ~v.neg /\ Len(v.mag) <= 3 THEN EOk(VarInt(SmallNat(v.mag)))
                       ELSE Fail("any")
    [] t.k = "u24" -> IF v.k = "int" /\ ~v.neg /\ Len(v.mag) <= 3 THEN EOk(InOrder(bo, PadTo(v.mag, 3)))
                      ELSE Fail("any")
    [] t.k = "rel" -> EncRel(t, v, ctx.f)
    [] OTHER -> Fail("unspec")

(* --- unpacking: d is all the data, p how much of it has been consumed ----- *)
RECURSIVE Dec(_, _, _, _, _), DecItems(_, _, _, _, _, _), DecSeq(_, _, _, _, _, _), DecRec(_, _, _)

DecRec(r, d, p) ==
  LET x == DecSeq([i \in 1..Len(r.fs) |-> r.fs[i].t], [i \in 1..Len(r.fs) |-> r.fs[i].n],
                  d, p, r.bo, [c |-> r, f |-> <<>>])
  IN IF x.ok THEN [ok |-> TRUE, v |-> ObjV(r.cls, x.ctx.f), p |-> x.p, log |-> x.log] ELSE x

IsPad(t) == t.k = "pad" \/ (t.k = "cond" /\ t.t.k = "pad")

(* ns: attribute names if the types are those of a class, else <<>> (tuple) *)
DecSeq(ts, ns, d, p0, bo, ctx0) ==
  LET Got(a, i, v) ==
        IF IsPad(ts[i]) THEN a
        ELSE IF ns = <<>> THEN [a EXCEPT !.vs = Append(@, v)]
        ELSE [a EXCEPT !.ctx.f = Append(@, [n |-> ns[i], v |-> v])]
      Step(a, i) ==
        IF ~a.ok THEN a
        ELSE IF Basic(ts[i])
        THEN LET gap == Gap(a.g, BAlign(ts[i], bo))
                 n == BSize(ts[i])
                 s == Take(d, a.p, gap + n)
             IN IF ~s.ok THEN s
                ELSE LET e == DecBasic(ts[i], SubSeq(s.s, gap + 1, gap + n), bo) IN
                     IF ~e.ok THEN e
                     ELSE Got([a EXCEPT !.p = s.p, !.g = @ + gap + n, !.log = @ \o CustLog(ts[i], e.v)], i, e.v)
        ELSE LET e == Dec(ts[i], d, a.p, bo, a.ctx) IN
             IF ~e.ok THEN e
             ELSE Got([a EXCEPT !.p = e.p, !.g = 0, !.log = @ \o e.log], i, e.v)
  IN FoldLeft(Step, [ok |-> TRUE, p |-> p0, g |-> 0, vs |-> <<>>, ctx |-> ctx0, log |-> <<>>],
              [i \in 1..Len(ts) |-> i])

(* n more items *)
DecItems(t, n, d, a, bo, ctx) ==
  IF n = 0 THEN a
  ELSE LET e == Dec(t, d, a.p, bo, ctx) IN
       IF ~e.ok THEN e
       ELSE DecItems(t, n - 1, d, [a EXCEPT !.p = e.p, !.vs = Append(@, e.v), !.log = @ \o e.log], bo, ctx)

Dec(t, d, p, bo, ctx) ==
  CASE Basic(t) ->
         LET s == Take(d, p, BSize(t)) IN
         IF ~s.ok THEN s
         ELSE LET e == DecBasic(t, s.s, bo) IN
              IF e.ok THEN [ok |-> TRUE, v |-> e.v, p |-> s.p, log |-> CustLog(t, e.v)] ELSE e
    [] t.k \in {"dchar", "tchar", "net", "cchar"} ->
         LET s == DecStr(t, d, p, bo) IN IF s.ok THEN DOk(BytV(s.s), s.p) ELSE s
    [] t.k = "uni" ->
         LET s == DecStr(t.t, d, p, bo) IN
         IF ~s.ok THEN s
         ELSE LET x == TextDec(t.enc, s.s) IN
              IF x.ok THEN DOk(StrV(StripNul(x.s)), s.p) ELSE Fail("any")
    [] t.k = "arr" ->
         LET h == Take(d, p, HeadSize(t, bo))
             cn == IF t.cf = "" THEN 0 ELSE FSize(t.cf)
             n == IF t.cf = "" THEN t.n ELSE SmallNat(UnsignedOf(InOrder(bo, SubSeq(h.s, 1, cn))).mag)
             sz == SmallNat(UnsignedOf(InOrder(bo, SubSeq(h.s, HeadSize(t, bo) - FSize(t.sf) + 1, HeadSize(t, bo)))).mag)
             r == DecItems(t.t, n, d, [ok |-> TRUE, p |-> h.p, vs |-> <<>>, log |-> <<>>], bo, ctx)
         IN IF ~h.ok THEN h
            ELSE IF ~r.ok THEN r
            ELSE IF t.sf # "" /\ sz # r.p - h.p THEN Fail("value")
            ELSE [ok |-> TRUE, v |-> LstV(r.vs), p |-> r.p, log |-> r.log]
    [] t.k = "tup" ->
         LET r == DecSeq(t.e, <<>>, d, p, bo, ctx) IN
         IF r.ok THEN [ok |-> TRUE, v |-> TupV(r.vs), p |-> r.p, log |-> r.log] ELSE r
    [] t.k = "rec" -> DecRec(t, d, p)
    [] t.k = "self" -> DecRec(Node(ctx.c), d, p)
    [] t.k = "lb" ->
         LET key == Eval(t.d, ctx.f)
             alt == Pick(t, key)
         IN IF key.k = "err" THEN Fail(IF key.miss THEN "miss" ELSE "any")
            ELSE IF ~Hashable(key) THEN Fail("unspec")
            ELSE IF alt = <<>> THEN Fail("value")
            ELSE WithLog(Dec(alt[1], d, p, bo, ctx), <<[lbl |-> t.lbl, f |-> ctx.f]>>)
    [] t.k = "la" ->
         LET key == Dec(t.r, d, p, bo, ctx)
             alt == Pick(t, key.v)
         IN IF ~key.ok THEN key
            ELSE IF ~Hashable(key.v) THEN Fail("unspec")
            ELSE IF alt = <<>> THEN Fail("value")
            ELSE WithLog(Dec(alt[1], d, p, bo, ctx), key.log)
    [] t.k = "cond" ->
         LET c == Eval(t.d, ctx.f) IN
         IF c.k = "err" THEN Fail(IF c.miss THEN "miss" ELSE "any")
         ELSE IF Truthy(c) THEN WithLog(Dec(t.t, d, p, bo, ctx), <<[lbl |-> t.lbl, f |-> ctx.f]>>)
         ELSE [ok |-> TRUE, v |-> (IF t.dv = <<>> THEN NoneV ELSE t.dv[1]), p |-> p,
               log |-> <<[lbl |-> t.lbl, f |-> ctx.f]>>]
    [] t.k = "vint" -> UnVarInt(d, p, 0, 0)
    [] t.k = "u24" -> LET s == Take(d, p, 3) IN
                      IF s.ok THEN DOk(IntV(UnsignedOf(InOrder(bo, s.s))), s.p) ELSE s
    [] t.k = "rel" -> DecRel(t, d, p, ctx.f)
    [] OTHER -> Fail("unspec")
=============================================================================
