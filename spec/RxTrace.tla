------------------------------- MODULE RxTrace -------------------------------
(* Validates recorded executions of the real receiver (horus_rx called block   *)
(* by block on a known stream of demodulated bits) against the receiver's      *)
(* contract, the one RxDesign / RttyDesign satisfy:                            *)
(*   - a call that reports a packet reports one that really lies, complete and *)
(*     with a valid checksum, after a unique word inside the window, that was  *)
(*     not reported before, and that is the earliest such packet not yet out;  *)
(*   - a packet that lies in the stream is reported before it leaves the       *)
(*     window;                                                                 *)
(*   - a call that reports nothing does not flag any text as checked.          *)
(* What lies in the stream is computed here, from the bits, by the frame codec *)
(* specification (binary) or the RTTY sentence format.                         *)
EXTENDS FrameCodec, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
NS == Len(Recs)
W == 16
L == Leader

VARIABLES s,      \* stream being validated
          k,      \* calls consumed so far, -1 before the stream is analysed
          cand,   \* packets in the stream not yet delivered
          bad     \* "" or why the recorded call is not allowed
vars == <<s, k, cand, bad>>

R == Recs[s]
Bits == R.bits
NB == Len(Bits)
B(p) == Bits[p + 1]

(* ----------------------------------------------------------------- binary *)
AirTab == [n \in {22, 32, 48, 64, 96, 128} |-> AirTable(n)]
BinSizes == <<22, 32, 48, 64, 96, 128>>
BinUW == <<0,0,1,0,0,1,0,0, 0,0,1,0,0,1,0,0>>
RECURSIVE Like(_, _, _, _)               \* at most one bit of U differs at p
Like(U, p, i, e) == IF i > Len(U) THEN TRUE
                    ELSE IF U[i] = Bits[p + i] THEN Like(U, p, i + 1, e)
                    ELSE IF e = 1 THEN FALSE ELSE Like(U, p, i + 1, 1)
(* one of the two '$'s of a unique word is intact then: look for those first *)
Intact == LET b == Bits IN
  { q \in 0..NB-8 : b[q+3] = 1 /\ b[q+6] = 1 /\ b[q+1] = 0 /\ b[q+2] = 0 /\ b[q+4] = 0 /\ b[q+5] = 0 /\ b[q+7] = 0 }
UwAt(U, half) == LET h == Intact IN
  { q \in h \cup { x - half : x \in h } : q >= 0 /\ q + 2*half <= NB /\ Like(U, q, 1, 0) }
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexText(P) == [i \in 1..2*Len(P) |-> LET b == P[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

PacketAt(p, n) == AirDecode(L, AirTab[n], Bits, p + 16, n)
VersionOf(P) == CASE Len(P) = 22 -> IF TailCrcOk(P) THEN 1 ELSE 0
                  [] Len(P) = 32 -> IF TailCrcOk(P) THEN 2 ELSE IF HeadCrcOk(P) THEN 3 ELSE 0
                  [] OTHER -> IF HeadCrcOk(P) THEN 3 ELSE 0
RECURSIVE FirstSize(_, _)
FirstSize(p, i) ==
   IF i > Len(BinSizes) \/ p + 8 * FrameBytes(BinSizes[i]) > NB THEN {}
   ELSE LET P == PacketAt(p, BinSizes[i])  v == VersionOf(P) IN
        IF v > 0 THEN {[b |-> p, from |-> p, end |-> p + 8 * FrameBytes(BinSizes[i]), text |-> HexText(P), ver |-> v, must |-> TRUE]}
        ELSE FirstSize(p, i + 1)
BinCand == UNION { FirstSize(p, 1) : p \in UwAt(BinUW, 8) }

(* ------------------------------------------------------------------- RTTY *)
CL == R.cl                         \* bits per character: start + data + stop
AB == R.ab
Dollar == 36
RECURSIVE CharR(_, _)
CharR(p, i) == IF i = AB THEN 0 ELSE B(p + i) + 2 * CharR(p, i + 1)
CharAt(p) == CharR(p, 0)
RttyUW == LET one == [i \in 1..CL |-> IF i <= AB THEN Bit(Dollar, i - 1) ELSE IF i < CL THEN 1 ELSE 0] IN one \o one
NumChars(p) == LET m == (NB - p - AB) \div CL + 1 IN IF NB - p < AB THEN 0 ELSE IF m > 124 THEN 124 ELSE m
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
SentenceAt(u) ==
   LET m == NumChars(u)
       C == [i \in 1..m |-> CharAt(u + CL * (i - 1))]
       nonD == { i \in 1..m : C[i] # Dollar }
       first == IF nonD = {} THEN 0 ELSE CHOOSE i \in nonD : \A j \in nonD : i <= j
       stars == { i \in 1..m : C[i] = 42 }
       star == IF stars = {} THEN 0 ELSE CHOOSE i \in stars : \A j \in stars : i <= j
       h == [i \in 1..4 |-> HexVal(C[star + i])]
   IN IF first < 3 \/ star = 0 \/ star < first \/ star + 4 > m THEN {}
      ELSE IF \E i \in 1..4 : h[i] < 0 THEN {}
      ELSE IF h[1] * 4096 + h[2] * 256 + h[3] * 16 + h[4] # Crc16(SubSeq(C, first, star - 1)) THEN {}
      ELSE {[b |-> u + CL * (first - 1), from |-> u + CL * (first - 3), end |-> u + CL * (star + 3) + AB,
             text |-> SubSeq(C, first, star + 4), ver |-> 0,
             must |-> star > first /\ 2 + (star + 4 - first + 1) <= 120]}
RttyCand == LET U == RttyUW IN UNION { SentenceAt(u) : u \in UwAt(U, CL) }

(* ---------------------------------------------------------------- contract *)
IsDollars(q) == \A i \in DOMAIN q : q[i] = Dollar
IsEol(q) == \A i \in DOMAIN q : q[i] \in {10, 13}
Fits(text, c) ==
  IF R.cl = 0 THEN text = c.text
  ELSE LET d == { i \in 0..Len(text) : i >= 2 /\ i + Len(c.text) <= Len(text) /\ IsDollars(SubSeq(text, 1, i))
                      /\ SubSeq(text, i + 1, i + Len(c.text)) = c.text /\ IsEol(SubSeq(text, i + Len(c.text) + 1, Len(text))) }
       IN d # {}

Call == R.calls[k + 1]
N == (k + 1) * R.block                   \* bits received including this call's
Ready == { c \in cand : c.end <= N /\ c.must /\ ~("lossy" \in DOMAIN R /\ R.lossy) }
May   == { c \in cand : c.end <= N }
Earliest(S, c) == \A d \in S : c.b <= d.b
After == IF Call.ret = 0 THEN cand ELSE { c \in cand : ~(c \in May /\ Fits(Call.text, c)) }
Lossy == "lossy" \in DOMAIN R /\ R.lossy      \* more unique words than the receiver tracks: nothing has to be delivered
Lost(C, m) == { c \in C : ~Lossy /\ c.must /\ c.from < m + R.block - R.window }
Reason ==
  IF Call.ret = 0 THEN
       IF R.fresh /\ Call.text # <<>> /\ Call.crc = 1 THEN "text flagged as checked although nothing was reported"
       ELSE IF Lost(cand, N) # {} THEN "a valid packet left the window without being reported" ELSE ""
  ELSE LET hit == { c \in May : Fits(Call.text, c) } IN
       IF hit = {} THEN "reported a packet that is not a (further) valid packet in the window"
       ELSE IF Call.crc # 1 THEN "reported packet without the CRC flag"
       ELSE LET c == CHOOSE x \in hit : Earliest(hit, x) IN
            IF ~Earliest(Ready, c) THEN "packets reported out of order"
            ELSE IF c.from < N - R.window THEN "reported a packet outside the window"
            ELSE IF R.cl = 0 /\ Call.ver # c.ver THEN "wrong packet version"
            ELSE IF Lost(cand \ {c}, N) # {} THEN "a valid packet left the window without being reported" ELSE ""

Init == s \in 1..(IF NS < W THEN NS ELSE W) /\ k = -1 /\ cand = {} /\ bad = ""
Analyse == /\ k = -1
           /\ k' = 0
           /\ cand' = IF R.cl = 0 THEN BinCand ELSE RttyCand
           /\ bad' = IF Cardinality({c \in cand' : c.must}) < R.expect THEN "the stream holds fewer packets than were sent" ELSE ""
           /\ s' = s
Step == /\ k >= 0 /\ k < Len(R.calls)
        /\ bad' = Reason
        /\ cand' = IF Call.ret = 0 THEN cand
                   ELSE LET hit == { c \in May : Fits(Call.text, c) } IN
                        IF hit = {} THEN cand ELSE cand \ {CHOOSE x \in hit : Earliest(hit, x)}
        /\ k' = k + 1 /\ s' = s
NextStream == /\ k = Len(R.calls) /\ s + W <= NS
              /\ s' = s + W /\ k' = -1 /\ cand' = {} /\ bad' = ""
Next == bad = "" /\ (Analyse \/ Step \/ NextStream)
Accepted == bad = ""
=============================================================================
