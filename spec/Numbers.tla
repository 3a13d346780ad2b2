------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Numbers as TLC can hold them.  TLC integers are 32 bit, so the integers *)
(* of the library (up to 64 bit) are sign and magnitude, the magnitude     *)
(* being base 256 limbs, least significant first, without trailing zeros;  *)
(* floats are the 8 bytes of the IEEE 754 double, most significant first.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Rep(n, x) == [i \in 1..n |-> x]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* --- integers ---------------------------------------------------------- *)
RECURSIVE StripTop(_)
StripTop(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN StripTop(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o LimbsOf(n \div 256)

(* TLC integer of limbs; only meaningful up to 3 limbs, larger ones saturate *)
SmallNat(m) ==
  CASE Len(m) = 0 -> 0
    [] Len(m) = 1 -> m[1]
    [] Len(m) = 2 -> m[1] + 256 * m[2]
    [] Len(m) = 3 -> m[1] + 256 * m[2] + 65536 * m[3]
    [] OTHER -> 16777216

(* remainder by a small number, of any magnitude *)
ModNat(m, c) == FoldLeft(LAMBDA a, i : ((a * 256) + m[(Len(m) + 1) - i]) % c, 0, [i \in 1..Len(m) |-> i])

PadTo(m, size) == m \o Rep(size - Len(m), 0)

(* two's complement of little endian bytes *)
Negate(b) ==
  IF \A i \in 1..Len(b) : b[i] = 0 THEN b
  ELSE LET z == CHOOSE i \in 1..Len(b) : b[i] # 0 /\ \A j \in 1..(i-1) : b[j] = 0
       IN  [i \in 1..Len(b) |-> IF i < z THEN 0 ELSE IF i = z THEN 256 - b[i] ELSE 255 - b[i]]

FitsUnsigned(neg, mag, size) == ~neg /\ Len(mag) <= size
FitsSigned(neg, mag, size) ==
  \/ Len(mag) < size
  \/ /\ Len(mag) = size
     /\ \/ mag[size] < 128
        \/ neg /\ mag[size] = 128 /\ \A i \in 1..(size-1) : mag[i] = 0

IntBytes(neg, mag, size) == IF neg THEN Negate(PadTo(mag, size)) ELSE PadTo(mag, size)
UnsignedOf(b) == [neg |-> FALSE, mag |-> StripTop(b)]
SignedOf(b) == IF b[Len(b)] >= 128 THEN [neg |-> TRUE, mag |-> StripTop(Negate(b))]
               ELSE UnsignedOf(b)

(* --- floats ------------------------------------------------------------ *)
Pow2(n) == CHOOSE p \in {2^n} : TRUE
ByteBits(x, n) == [i \in 1..n |-> (x \div (2^(n-i))) % 2]      \* n low bits, MSB first
BitsToNat(s) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, s)
AllBits(b) == FlattenSeq([i \in 1..Len(b) |-> ByteBits(b[i], 8)])
BitsToBytes(s) == [i \in 1..(Len(s) \div 8) |-> BitsToNat(SubSeq(s, 8*(i-1)+1, 8*i))]

(* Double (8 bytes, big endian) to a narrower IEEE format (big endian bytes). *)
(* "inexact" results are outside of what the specification predicts.          *)
Narrow(d, ebits, mbits) ==
  LET bits == AllBits(d)
      sign == bits[1]
      ex   == BitsToNat(SubSeq(bits, 2, 12))
      man  == SubSeq(bits, 13, 64)
      bias == 2^(ebits-1) - 1
      ones == Rep(ebits, 1)
      Out(e, m) == [st |-> "ok", b |-> BitsToBytes(<<sign>> \o e \o m)]
      Exact(s) == \A i \in (mbits+1)..Len(s) : s[i] = 0
  IN
  IF ex = 2047 THEN IF Exact(man) THEN Out(ones, SubSeq(man, 1, mbits)) ELSE [st |-> "inexact"]
  ELSE IF ex = 0 THEN IF \A i \in 1..52 : man[i] = 0 THEN Out(Rep(ebits, 0), Rep(mbits, 0))
                      ELSE [st |-> "inexact"]
  ELSE LET E == ex - 1023 IN
    IF E > bias THEN [st |-> "overflow"]
    ELSE IF E >= 1 - bias
         THEN IF Exact(man) THEN Out(ByteBits(E + bias, ebits), SubSeq(man, 1, mbits))
              ELSE [st |-> "inexact"]
         ELSE LET sh == 1 - bias - E
                  s  == Rep(sh - 1, 0) \o <<1>> \o man
              IN IF sh > mbits \/ ~Exact(s) THEN [st |-> "inexact"]
                 ELSE Out(Rep(ebits, 0), SubSeq(s, 1, mbits))

(* an integer as a double: <<>> if there is none that equals it *)
IntAsFlt(neg, mag) ==
  LET bits == AllBits([i \in 1..Len(mag) |-> mag[Len(mag) + 1 - i]])
      top  == CHOOSE i \in 1..Len(bits) : bits[i] = 1 /\ \A j \in 1..(i-1) : bits[j] = 0
      man  == SubSeq(bits, top + 1, Len(bits))
      m    == man \o Rep(Max2(0, 52 - Len(man)), 0)
  IN
  IF mag = <<>> THEN <<Rep(8, 0)>>
  ELSE IF Len(man) > 1023 \/ \E i \in 53..Len(m) : m[i] = 1 THEN <<>>
  ELSE <<BitsToBytes(<<IF neg THEN 1 ELSE 0>> \o ByteBits(Len(man) + 1023, 11) \o SubSeq(m, 1, 52))>>

(* A narrower IEEE format (big endian bytes) to the double, always exact *)
Widen(b, ebits, mbits) ==
  LET bits == AllBits(b)
      sign == bits[1]
      ex   == BitsToNat(SubSeq(bits, 2, 1 + ebits))
      man  == SubSeq(bits, 2 + ebits, 1 + ebits + mbits)
      bias == 2^(ebits-1) - 1
      Out(e, m) == BitsToBytes(<<sign>> \o ByteBits(e, 11) \o m \o Rep(52 - Len(m), 0))
      first == IF \E i \in 1..mbits : man[i] = 1
               THEN CHOOSE i \in 1..mbits : man[i] = 1 /\ \A j \in 1..(i-1) : man[j] = 0
               ELSE 0
  IN
  IF ex = 2^ebits - 1 THEN Out(2047, man)
  ELSE IF ex = 0 THEN IF first = 0 THEN Out(0, <<>>)
                      ELSE Out(1 - bias - first + 1023, SubSeq(man, first + 1, mbits))
  ELSE Out(ex - bias + 1023, man)
=============================================================================
