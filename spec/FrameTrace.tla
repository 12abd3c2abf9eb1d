----------------------------- MODULE FrameTrace -----------------------------
(* Validates recorded calls of the real codec against FrameCodec.  One state   *)
(* per record (the file is split over W walkers so that TLC uses all cores).   *)
EXTENDS FrameCodec, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W
Explains(r) ==
  CASE r.op = "enc" -> /\ r.announced = FrameBytes(Len(r.p))
                       /\ r.returned = FrameBytes(Len(r.p))
                       /\ r.f = EncodeFrame(r.p)
    [] r.op = "dec" -> r.p = DecodeFrame(Leader, r.f, r.n)
    [] r.op = "crc" -> r.c = Crc16(r.p)
    [] r.op = "len" -> r.announced = FrameBytes(r.n)
    [] r.op = "tail" -> Len(r.p) = r.n /\ TailCrcOk(r.p) /\ r.f = EncodeFrame(r.p)
    [] r.op = "head" -> Len(r.p) = r.n /\ HeadCrcOk(r.p) /\ r.f = EncodeFrame(r.p)
Accepted == l <= Len(Recs) => Explains(Recs[l])
=============================================================================
