-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text is a sequence of code points; these are the codecs used with the   *)
(* unicode hint, including the "custom encoder" ones of the harness:       *)
(*   rev    utf-8 with the encoded bytes reversed                          *)
(*   xor    latin-1 with every byte inverted (255 - b)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

TOk(s) == [ok |-> TRUE, s |-> s]
TErr == [ok |-> FALSE]

Utf8Cp(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
Surrogate(c) == c >= 55296 /\ c <= 57343

Utf8Enc(s) ==
  IF Ascii(s) THEN TOk(s)
  ELSE IF \E i \in 1..Len(s) : Surrogate(s[i]) THEN TErr
  ELSE TOk(FlattenSeq([i \in 1..Len(s) |-> Utf8Cp(s[i])]))

(* strict decoder: state is (bytes still needed, accumulated, smallest legal) *)
Utf8Step(st, b) ==
  IF ~st.ok THEN st
  ELSE IF st.need = 0
       THEN IF b < 128 THEN [st EXCEPT !.out = Append(@, b)]
            ELSE IF b >= 194 /\ b <= 223 THEN [st EXCEPT !.need = 1, !.acc = b - 192, !.min = 128]
            ELSE IF b >= 224 /\ b <= 239 THEN [st EXCEPT !.need = 2, !.acc = b - 224, !.min = 2048]
            ELSE IF b >= 240 /\ b <= 244 THEN [st EXCEPT !.need = 3, !.acc = b - 240, !.min = 65536]
            ELSE [st EXCEPT !.ok = FALSE]
       ELSE IF b < 128 \/ b > 191 THEN [st EXCEPT !.ok = FALSE]
       ELSE LET acc == st.acc * 64 + (b - 128) IN
            IF st.need > 1 THEN [st EXCEPT !.need = @ - 1, !.acc = acc]
            ELSE IF acc < st.min \/ acc > 1114111 \/ Surrogate(acc) THEN [st EXCEPT !.ok = FALSE]
            ELSE [st EXCEPT !.need = 0, !.acc = 0, !.out = Append(@, acc)]
Utf8Dec(b) ==
  IF Ascii(b) THEN TOk(b)
  ELSE LET r == FoldLeft(Utf8Step, [ok |-> TRUE, need |-> 0, acc |-> 0, min |-> 0, out |-> <<>>], b)
       IN IF r.ok /\ r.need = 0 THEN TOk(r.out) ELSE TErr

(* UTF-16 little endian without byte order mark *)
U16(n) == <<n % 256, n \div 256>>
Utf16Cp(c) == IF c < 65536 THEN U16(c)
              ELSE U16(55296 + (c - 65536) \div 1024) \o U16(56320 + ((c - 65536) % 1024))
Utf16Enc(s) == IF \E i \in 1..Len(s) : Surrogate(s[i]) THEN TErr
               ELSE TOk(FlattenSeq([i \in 1..Len(s) |-> Utf16Cp(s[i])]))
Utf16Step(st, u) ==
  IF ~st.ok THEN st
  ELSE IF st.hi = 0
       THEN IF u >= 55296 /\ u <= 56319 THEN [st EXCEPT !.hi = u]
            ELSE IF u >= 56320 /\ u <= 57343 THEN [st EXCEPT !.ok = FALSE]
            ELSE [st EXCEPT !.out = Append(@, u)]
       ELSE IF u >= 56320 /\ u <= 57343
            THEN [st EXCEPT !.hi = 0, !.out = Append(@, 65536 + (st.hi - 55296) * 1024 + (u - 56320))]
            ELSE [st EXCEPT !.ok = FALSE]
Utf16Dec(b) ==
  IF Len(b) % 2 # 0 THEN TErr
  ELSE LET us == [i \in 1..(Len(b) \div 2) |-> b[2*i-1] + 256 * b[2*i]]
           r == FoldLeft(Utf16Step, [ok |-> TRUE, hi |-> 0, out |-> <<>>], us)
       IN IF r.ok /\ r.hi = 0 THEN TOk(r.out) ELSE TErr

Latin1Enc(s) == IF \E i \in 1..Len(s) : s[i] > 255 THEN TErr ELSE TOk(s)

TextEnc(enc, s) ==
  CASE enc = "utf8"   -> Utf8Enc(s)
    [] enc = "ascii"  -> IF Ascii(s) THEN TOk(s) ELSE TErr
    [] enc = "latin1" -> Latin1Enc(s)
    [] enc = "utf16"  -> Utf16Enc(s)
    [] enc = "rev"    -> LET r == Utf8Enc(s) IN IF r.ok THEN TOk(Reverse(r.s)) ELSE TErr
    [] enc = "xor"    -> LET r == Latin1Enc(s) IN
                         IF r.ok THEN TOk([i \in 1..Len(s) |-> 255 - s[i]]) ELSE TErr

TextDec(enc, b) ==
  CASE enc = "utf8"   -> Utf8Dec(b)
    [] enc = "ascii"  -> IF Ascii(b) THEN TOk(b) ELSE TErr
    [] enc = "latin1" -> TOk(b)
    [] enc = "utf16"  -> Utf16Dec(b)
    [] enc = "rev"    -> Utf8Dec(Reverse(b))
    [] enc = "xor"    -> TOk([i \in 1..Len(b) |-> 255 - b[i]])

(* trailing NULs are dropped from decoded text *)
StripNul(s) ==
  IF s = <<>> \/ s[Len(s)] # 0 THEN s
  ELSE LET n == CHOOSE k \in 0..Len(s) :
                  /\ k = 0 \/ s[k] # 0
                  /\ \A j \in (k+1)..Len(s) : s[j] = 0
       IN SubSeq(s, 1, n)
=============================================================================
