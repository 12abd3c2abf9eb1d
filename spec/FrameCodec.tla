----------------------------- MODULE FrameCodec -----------------------------
(* The Horus Binary transmission frame.                                       *)
(*   "$$" | scramble(interleave( payload | Golay parity bits, zero padded ))  *)
(* Bytes are integers 0..255, packets are sequences of bytes.                 *)
EXTENDS Golay, SequencesExt

CeilDiv(a, b) == (a + b - 1) \div b

NumWords(n)   == CeilDiv(8 * n, 12)
BodyBytes(n)  == CeilDiv(8 * n + 11 * NumWords(n), 8)    \* payload + parity
FrameBytes(n) == 2 + BodyBytes(n)
UW == <<36, 36>>

(* ---- bit views ---- *)
MsbBit(B, i) == Bit(B[(i \div 8) + 1], 7 - (i % 8))      \* i-th bit, first bit on air first
LsbBit(B, i) == Bit(B[(i \div 8) + 1], i % 8)            \* numbering used by interleaver/scrambler

FromLsb(f, nbytes) ==
   [k \in 1..nbytes |-> LET b == 8 * (k - 1) IN
      f[b] + 2*f[b+1] + 4*f[b+2] + 8*f[b+3] + 16*f[b+4] + 32*f[b+5] + 64*f[b+6] + 128*f[b+7]]
FromMsb(f, nbytes) ==
   [k \in 1..nbytes |-> LET b == 8 * (k - 1) IN
      128*f[b] + 64*f[b+1] + 32*f[b+2] + 16*f[b+3] + 8*f[b+4] + 4*f[b+5] + 2*f[b+6] + f[b+7]]

(* ---- Golay layer ---- *)
(* Data word w (from 0) of an n byte payload.  A final partial group of k bits  *)
(* is sent as the k bits shifted up by one place (the deployed convention).     *)
RECURSIVE BitsVal(_, _, _)
BitsVal(P, from, to) == IF from > to THEN 0 ELSE 2 * BitsVal(P, from, to - 1) + MsbBit(P, to)
DataWord(P, w) == LET last == 12 * w + 11 IN
   IF last < 8 * Len(P) THEN BitsVal(P, 12 * w, last)
   ELSE 2 * BitsVal(P, 12 * w, 8 * Len(P) - 1)

Body(P) ==
   LET n == Len(P)
       par == [w \in 0..NumWords(n)-1 |-> Parity(DataWord(P, w))]
       pb  == [i \in 0..(8 * (BodyBytes(n) - n) - 1) |->
                  IF i < 11 * NumWords(n) THEN Bit(par[i \div 11], 10 - (i % 11)) ELSE 0]
   IN P \o FromMsb(pb, BodyBytes(n) - n)

(* ---- interleaver: bit i goes to place (b*i) mod nbits ---- *)
RECURSIVE NoDiv(_, _)
NoDiv(x, d) == IF d * d > x THEN TRUE ELSE IF x % d = 0 THEN FALSE ELSE NoDiv(x, d + 1)
IsPrime(x) == x >= 2 /\ NoDiv(x, 2)
RECURSIVE NextPrime(_)
NextPrime(x) == IF IsPrime(x + 1) THEN x + 1 ELSE NextPrime(x + 1)
InterleaveB(nbytes) == CASE nbytes = 43 -> 337        \* Horus Binary v1
                         [] nbytes = 63 -> 389        \* Horus Binary v2
                         [] OTHER -> NextPrime((800 * nbytes) \div 162)   \* floor(8*nbytes/1.62)

Perm(nbytes) == LET nb == 8 * nbytes  b == InterleaveB(nbytes) IN [i \in 0..nb-1 |-> (b * i) % nb]
IsPermutation(nbytes) == LET p == Perm(nbytes) IN Cardinality({p[i] : i \in DOMAIN p}) = 8 * nbytes

(* ---- additive scrambler, 15 bit register, taps 0 and 1 ---- *)
ScrInit == 19072                                         \* 0x4a80
ScrOut(s) == ((s % 2) + ((s \div 2) % 2)) % 2
ScrNext(s) == (s \div 2) + 16384 * ScrOut(s)
MaxFrameBits == 2600
RECURSIVE ScrSeq(_, _)
ScrSeq(s, n) == IF n = 0 THEN <<>> ELSE <<ScrOut(s)>> \o ScrSeq(ScrNext(s), n - 1)
(* built iteratively: register value before bit i *)
ScrReg == FoldLeft(LAMBDA acc, i : Append(acc, ScrNext(acc[i])), <<ScrInit>>, [i \in 1..MaxFrameBits |-> i])
Scr(i) == ScrOut(ScrReg[i + 1])

BitXor(a, b) == (a + b) % 2

(* Position of body bit i (in the LSB numbering) on air, and what it is xored with *)
Scramble(B) == FromLsb([i \in 0..(8 * Len(B) - 1) |-> BitXor(LsbBit(B, i), Scr(i))], Len(B))
Spread(B) ==          \* place j is filled from bit j / b (mod nbits)
   LET n == Len(B)  nb == 8 * n  b == InterleaveB(n)
       binv == CHOOSE x \in 1..nb : (b * x) % nb = 1
   IN FromLsb([j \in 0..nb-1 |-> LsbBit(B, (binv * j) % nb)], n)
Gather(B) == LET p == Perm(Len(B)) IN FromLsb([i \in 0..(8*Len(B)-1) |-> LsbBit(B, p[i])], Len(B))

EncodeFrame(P) == UW \o Scramble(Spread(Body(P)))

(* ---- receiver side ---- *)
DecodeBody(L, B, n) ==
   LET nw == NumWords(n)
       pbit(i) == MsbBit(B, 8 * n + i)
       RECURSIVE PB(_, _)
       PB(w, k) == IF k = 0 THEN 0 ELSE 2 * PB(w, k - 1) + pbit(11 * w + k - 1)
       dec == [w \in 0..nw-1 |-> DecodeWord(L, DataWord(SubSeq(B, 1, n), w) * 2048 + PB(w, 11))]
       last == 8 * n - 12 * (nw - 1)                     \* bits in the final group
   IN FromMsb([i \in 0..8*n-1 |-> LET w == i \div 12  k == i % 12 IN
                 IF w < nw - 1 \/ last = 12 THEN Bit(dec[w], 11 - k) ELSE Bit(dec[w], last - k)], n)
DecodeFrame(L, F, n) == DecodeBody(L, Gather(Scramble(SubSeq(F, 3, FrameBytes(n)))), n)

(* The same decoder, straight from the bits on air (used on recorded streams): *)
(* body bit m comes from air bit AirTable(n)[m+1][1] and is xored with [2].     *)
AirTable(n) ==
   LET nb == BodyBytes(n)  p == Perm(nb)
       msb(i) == 8 * (i \div 8) + 7 - (i % 8)
   IN [k \in 1..8*nb |-> LET i == msb(k - 1) IN <<msb(p[i]), Scr(p[i])>>]
AirDecode(L, T, A, at, n) ==          \* A: sequence of air bits, the body starts at index at+1
   LET nw == NumWords(n)
       last == 8 * n - 12 * (nw - 1)
       X(m) == LET t == T[m + 1] IN IF A[at + t[1] + 1] = t[2] THEN 0 ELSE 1
       Data(b) == 2048*X(b) + 1024*X(b+1) + 512*X(b+2) + 256*X(b+3) + 128*X(b+4) + 64*X(b+5)
                  + 32*X(b+6) + 16*X(b+7) + 8*X(b+8) + 4*X(b+9) + 2*X(b+10) + X(b+11)
       Par(b) == 1024*X(b) + 512*X(b+1) + 256*X(b+2) + 128*X(b+3) + 64*X(b+4) + 32*X(b+5)
                  + 16*X(b+6) + 8*X(b+7) + 4*X(b+8) + 2*X(b+9) + X(b+10)
       RECURSIVE PartialBits(_, _)
       PartialBits(b, k) == IF k = 0 THEN 0 ELSE 2 * PartialBits(b, k - 1) + X(b + k - 1)
       dec == [w \in 1..nw |-> DecodeWord(L, Par(8 * n + 11 * (w - 1)) +
                 2048 * (IF w < nw \/ last = 12 THEN Data(12 * (w - 1)) ELSE 2 * PartialBits(12 * (w - 1), last)))]
       word(w) == IF w < nw \/ last = 12 THEN dec[w] ELSE ((dec[w] \div 2) % Pow2[last]) * Pow2[12 - last]
   IN [k \in 1..n |-> LET b == 8 * (k - 1)  w == b \div 12 + 1 IN
         CASE b % 12 = 0 -> word(w) \div 16
           [] b % 12 = 4 -> word(w) % 256
           [] b % 12 = 8 -> 16 * (word(w) % 16) + (word(w + 1) \div 256)]

(* ---- CRC16-CCITT (0xFFFF, 0x1021), MSB first ---- *)
CrcBit(c) == IF c >= 32768 THEN ((2 * c) % 65536) ^^ 4129 ELSE 2 * c
CrcByte(c, b) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(c ^^ (b * 256)))))))))
Crc16(B) == FoldLeft(CrcByte, 65535, B)

LeBytes(c) == <<c % 256, c \div 256>>
LeWord(a, b) == a + 256 * b
TailCrcOk(P) == LeWord(P[Len(P)-1], P[Len(P)]) = Crc16(SubSeq(P, 1, Len(P) - 2))
HeadCrcOk(P) == LeWord(P[1], P[2]) = Crc16(SubSeq(P, 3, Len(P)))
AddTail(B) == B \o LeBytes(Crc16(B))
AddHead(B) == LeBytes(Crc16(B)) \o B
=============================================================================
