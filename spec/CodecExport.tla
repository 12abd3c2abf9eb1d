----------------------------- MODULE CodecExport -----------------------------
(* Writes the tables of the codec specification, for use as the oracle when    *)
(* stepping the real code: parities, error leaders and, for every payload      *)
(* size, which code word each bit on air belongs to.                           *)
EXTENDS FrameCodec, Json, IOUtils

AirWord(n) ==       \* air bit (MSB first, after the unique word) -> code word, or -1 for padding
   LET nb == BodyBytes(n)  p == Perm(nb)  nw == NumWords(n)
       msb(i) == 8 * (i \div 8) + 7 - (i % 8)
       owner(i) == LET m == msb(i) IN
           IF m < 8 * n THEN m \div 12
           ELSE IF (m - 8 * n) \div 11 < nw THEN (m - 8 * n) \div 11 ELSE -1
       pairs == [i \in 0..8*nb-1 |-> <<msb(p[i]), owner(i)>>]
       out == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![pairs[i-1][1] + 1] = pairs[i-1][2]],
                       [j \in 1..8*nb |-> -2], [i \in 1..8*nb |-> i])
   IN out

CONSTANT Sizes
AllSizes == 1..128
UsedSizes == {16, 22, 32, 48, 64, 96, 128}

VARIABLE size
First(S) == CHOOSE m \in S : \A k \in S : m <= k
Init == size \in {n \in Sizes : n < 17} \cup {First(Sizes)}
Next == \/ size + 16 \in Sizes /\ size' = size + 16
        \/ (\E k \in Sizes : k > size) /\ size' = First({k \in Sizes : k > size})

(* No two body bits share a place on air and none is lost *)
Bijective == IsPermutation(BodyBytes(size))
Lossless == LET P == [i \in 1..size |-> (i * 37 + size) % 256] IN
              /\ Len(EncodeFrame(P)) = FrameBytes(size)
              /\ DecodeFrame(Leader, EncodeFrame(P), size) = P
Flat(F) == [i \in 1..8*Len(F) |-> MsbBit(F, i - 1)]
(* the decoder used on recorded bit streams is the same function, also on damaged frames *)
SameDecoder == LET P == [i \in 1..size |-> (i * 91 + 7 * size) % 256]
                   F == EncodeFrame(P)
                   G == [i \in 1..Len(F) |-> IF i % 5 = 0 THEN (F[i] + i) % 256 ELSE F[i]]
               IN /\ AirDecode(Leader, AirTable(size), Flat(F), 16, size) = P
                  /\ AirDecode(Leader, AirTable(size), Flat(G), 16, size) = DecodeFrame(Leader, G, size)
Export ==
  /\ TLCGet("stats").distinct = Cardinality(Sizes)
  /\ JsonSerialize(IOEnv.OUT_CODE, [parity |-> [i \in 1..4096 |-> Parity(i-1)], leader |-> [i \in 1..2048 |-> Leader[i-1]]])
  /\ JsonSerialize(IOEnv.OUT_LAYOUT, LET sq == SetToSeq(Sizes) IN [k \in 1..Cardinality(Sizes) |-> LET n == sq[k] IN [n |-> n, bytes |-> FrameBytes(n), words |-> NumWords(n), owner |-> AirWord(n)]])
=============================================================================
