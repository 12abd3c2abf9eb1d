------------------------------ MODULE FrontTrace ------------------------------
(* What the real front ends do with audio and with the modem's answers, on a     *)
(* scripted modem: block k asks for nins[k] samples and answers outs[k].         *)
(*  add     HorusLib.add_samples, one entry per call                             *)
(*  rs      the same with sample rate conversion; every block is also compared   *)
(*          with the block of a run fed in pieces of 64 bytes                    *)
(*  direct  HorusLib.demodulate, one block per call                              *)
(*  cli     the Python command line tool, and ctool the C one: what was printed  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
T == INSTANCE Text
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, st
R == Recs[l]
Ch == IF R.iq = 1 THEN 2 ELSE 1
Nin(k) == R.nins[((k - 1) % Len(R.nins)) + 1]
Out(k) == IF k <= Len(R.outs) THEN R.outs[k] ELSE R.quiet
Need(k) == Nin(k) * 2 * Ch                         \* in bytes, at the modem's rate
IsRtty == R.mode \in 89..91

(* ---------------------------------------------------------- a packet's frame *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
Bytes(q) == [k \in 1..(Len(q) \div 2) |-> 16 * HexVal(q[2 * k - 1]) + HexVal(q[2 * k])]
Data(o) == IF IsRtty THEN o.c ELSE Bytes(o.c)
FrameOk(f, k) == LET o == Out(k) IN
   /\ f.bytes = ~IsRtty /\ f.data = Data(o) /\ f.crc = (o.crc # 0)
   /\ f.snr2 = k /\ f.st2 = k /\ f.sync = (k % 2 = 1) /\ f.f1 = 1000 + k /\ f.f4 = 4000 + k
HasPacket(k) == Out(k).c # <<>>
Blocks48(b, k, pos) == /\ b.n = Nin(k) /\ b.quad = R.iq
                       /\ b.start = ((pos \div 2) % 65536) /\ b.run = Nin(k) * Ch
(* converted audio: the source is a ramp with one step per sample (modulo 30000); pos counts bytes at 48 kHz *)
Rate(n) == (n * (R.rate \div 25)) \div 1920       \* 48 kHz samples as samples of the source (n below 280000 at 192 kHz)
Near(v, at) == LET d == (((v - at) + 45000) % 30000) - 15000 IN d \in -3..3 \/ (at % 30000) \in (0..10 \cup 29990..29999)
BlocksRs(b, k, pos) ==
   LET p == pos \div (2 * Ch) IN
   /\ b.n = Nin(k) /\ b.quad = R.iq /\ b.full /\ b.same
   /\ Near(b.head, Rate(p)) /\ Near(b.mid, Rate(p + (Nin(k) \div 2))) /\ Near(b.tail, Rate(p + Nin(k) - 1))
   /\ b.back <= 2 * Ch
BlockOk(b, k, pos) == IF R.rate = 48000 THEN Blocks48(b, k, pos) ELSE BlocksRs(b, k, pos)

Ratio == 48000 \div R.rate
(* ---------------------------------------------------------------- add_samples *)
S0 == [k |-> 1, pos |-> 0, fed |-> 0, why |-> ""]
RECURSIVE Fits(_, _, _)
Fits(k, pos, fed) == IF pos + Need(k) <= fed THEN 1 + Fits(k + 1, pos + Need(k), fed) ELSE 0
RECURSIVE Adv(_, _, _)
Adv(k, n, pos) == IF n = 0 THEN pos ELSE Adv(k + 1, n - 1, pos + Need(k))
(* converted audio is available but for the converter's own delay of a sample or two *)
Slack == 4 * (Ratio + 1)
InTime(s, fed, n) ==
   R.rate = 48000 \/ LET end == Adv(s.k, n, s.pos) \div (2 * Ch)
                         have == fed \div (2 * Ch) IN
                     /\ n > 0 => Rate(end) <= have + 2
                     /\ Rate(end + Nin(s.k + n) + Slack) >= have
Call(s, c) ==
   IF s.why # "" THEN s ELSE
   LET fed == s.fed + c.n
       n == IF R.rate = 48000 THEN Fits(s.k, s.pos, fed) ELSE Len(c.blocks)
       ks == [i \in 1..n |-> s.k + i - 1]
       cbs == SelectSeq(ks, HasPacket)
       bad == IF Len(c.blocks) # n \/ ~InTime(s, fed, n) THEN "a call did not process exactly the blocks that were complete"
              ELSE IF \E i \in 1..n : ~BlockOk(c.blocks[i], s.k + i - 1, Adv(s.k, i - 1, s.pos)) THEN "a block is not the audio that follows the one before"
              ELSE IF ~R.cb THEN ""
              ELSE IF Len(c.frames) # Len(cbs) THEN "the callback was not called for exactly the packets found"
              ELSE IF \E i \in DOMAIN cbs : ~FrameOk(c.frames[i], cbs[i]) THEN "a frame passed to the callback does not carry its packet, checksum status and statistics"
              ELSE ""
       ret == IF (n = 0) # (c.ret = <<>>) THEN "" ELSE IF n > 0 /\ ~FrameOk(c.ret[1], s.k + n - 1) THEN "the frame returned is not that of the last block" ELSE ""
   IN [k |-> s.k + n, pos |-> Adv(s.k, n, s.pos), fed |-> fed, why |-> IF bad # "" THEN bad ELSE ret]
AddWhy == FoldLeft(Call, S0, R.calls).why

(* ----------------------------------------------------------------- demodulate *)
DirectWhy ==
   LET start(k) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(R.lens, 1, k - 1)) * Ch
       short(k) == IF R.lens[k] < Nin(k) THEN R.lens[k] ELSE Nin(k) IN
   IF Len(R.blocks) # Len(R.lens) \/ Len(R.frames) # Len(R.lens) THEN "not one block per call"
   ELSE IF \E k \in DOMAIN R.lens : LET b == R.blocks[k] IN
           ~(b.n = Nin(k) /\ b.quad = R.iq /\ (short(k) > 0 => b.run = short(k) * Ch /\ b.start = (start(k) % 65536)) /\ b.zeros = 1)
        THEN "a block is not the audio given, padded with silence"
   ELSE IF \E k \in DOMAIN R.lens : ~FrameOk(R.frames[k], k) THEN "a frame does not carry its packet, checksum status and statistics"
   ELSE ""

(* ---------------------------------------------------------------------- tools *)
Upper(q) == [k \in DOMAIN q |-> IF q[k] \in 97..122 THEN q[k] - 32 ELSE q[k]]
CrcOk == <<32, 32, 67, 82, 67, 32, 79, 75>>
CrcBad == <<32, 32, 67, 82, 67, 32, 66, 65, 68>>
LineOf(k) == (IF IsRtty THEN Out(k).c ELSE Upper(Out(k).c)) \o (IF R.crcs THEN (IF Out(k).crc # 0 THEN CrcOk ELSE CrcBad) ELSE <<>>)
Good(k) == HasPacket(k) /\ Out(k).crc # 0
NBlocks == Fits(1, 0, R.bytes)
Ks == [k \in 1..NBlocks |-> k]
Lines(q) == LET s == T!Split(q, 10) IN IF s[Len(s)] = <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IsStats(q) == q # <<>> /\ q[1] = 123
Packets(q) == SelectSeq(Lines(q), LAMBDA x : ~IsStats(x))
Shown == [i \in DOMAIN SelectSeq(Ks, Good) |-> LineOf(SelectSeq(Ks, Good)[i])]
ShownV == LET s == SelectSeq(Ks, HasPacket) IN [i \in DOMAIN s |-> LineOf(s[i])]
(* every statistics line: EbNo*2 and the tones of some block, blocks in order *)
StatOk(x) == LET k == x.snr2 IN k \in 0..NBlocks /\ x.ppm = k /\ x.f = [i \in 1..(IF IsRtty THEN 2 ELSE 4) |-> 1000 * i + k]
                                 /\ x.eye = <<<<0, 0, 0>>, <<0, 0, 0>>>>
StatsOk == /\ (R.wantstats => R.stats # <<>> \/ NBlocks = 0) /\ (~R.wantstats => R.stats = <<>>)
           /\ \A i \in DOMAIN R.stats : StatOk(R.stats[i])
           /\ \A i, j \in DOMAIN R.stats : i < j => R.stats[i].snr2 <= R.stats[j].snr2
ToolWhy ==
   IF R.code # 0 THEN "the tool failed"
   ELSE IF Len(R.blocks) # NBlocks THEN "the tool did not process every complete block of its input"
   ELSE IF \E k \in DOMAIN Ks : ~Blocks48(R.blocks[k], k, Adv(1, k - 1, 0)) THEN "a block is not the audio that follows the one before"
   ELSE IF Len(R.out) > 0 /\ R.out[Len(R.out)] # 10 THEN "the last line is not complete"
   ELSE IF Packets(R.out) # Shown /\ ~(R.verbose /\ Packets(R.out) = ShownV) THEN "the lines printed are not the valid packets, in order"
   ELSE IF Packets(R.other) # <<>> THEN "packets were printed to another output"
   ELSE IF ~StatsOk THEN "the statistics printed are not those of the blocks"
   ELSE IF Len(R.opened) # 1 \/ \E i \in 1..3 : R.want[i] \notin {-7, R.opened[1][i]} THEN "the receiver was not opened with the mode, rate and tone spacing chosen"
   ELSE IF R.limits # R.wantlimits THEN "the estimator limits chosen were not set"
   ELSE ""
(* -------------------------------------------- whole receivers on real signals *)
RECURSIVE LStrip(_, _)
LStrip(q, S) == IF q # <<>> /\ q[1] \in S THEN LStrip(SubSeq(q, 2, Len(q)), S) ELSE q
RECURSIVE RStrip(_, _)
RStrip(q, S) == IF q # <<>> /\ q[Len(q)] \in S THEN RStrip(SubSeq(q, 1, Len(q) - 1), S) ELSE q
Norm(q) == RStrip(LStrip(q, {36}), {10, 13})
E2eWhy == LET exp == [k \in DOMAIN R.sent |-> IF IsRtty THEN Norm(R.sent[k]) ELSE T!HexOf(R.sent[k])]
              got == SelectSeq(Packets(R.out), LAMBDA x : x # <<>>)
          IN IF [k \in DOMAIN got |-> IF IsRtty THEN Norm(got[k]) ELSE got[k]] # exp THEN "the lines printed are not the packets sent, in order" ELSE ""
Why == IF R.raised # "" THEN "an exception was raised"
       ELSE CASE R.kind \in {"add", "rs"} -> AddWhy [] R.kind = "direct" -> DirectWhy [] R.kind = "e2e" -> E2eWhy [] OTHER -> ToolWhy
Init == l \in 1..W /\ st = ""
Next == l <= Len(Recs) /\ l + W <= Len(Recs) /\ l' = l + W /\ st' = ""
Accepted == l <= Len(Recs) => Why = ""
================================================================================
