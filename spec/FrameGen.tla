------------------------------ MODULE FrameGen ------------------------------
(* Produces, from the specification alone, the frames that a transmitter sends *)
(* for given payloads: checksummed as asked, then encoded.                     *)
EXTENDS FrameCodec, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
W == 16
VARIABLES l, frame
Make(j) == LET P == CASE j.crc = "tail" -> AddTail(j.p) [] j.crc = "head" -> AddHead(j.p) [] OTHER -> j.p
           IN [p |-> P, f |-> EncodeFrame(P)]
Init == l \in 1..W /\ frame = IF l <= Len(Jobs) THEN Make(Jobs[l]) ELSE <<>>
Next == l + W <= Len(Jobs) /\ l' = l + W /\ frame' = Make(Jobs[l + W])
RoundTrip == l <= Len(Jobs) => DecodeFrame(Leader, frame.f, Len(frame.p)) = frame.p
Export == TLCGet("stats").distinct >= Len(Jobs) /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Jobs) |-> Make(Jobs[i])])
=============================================================================
