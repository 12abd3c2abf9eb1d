---------------------------- MODULE HorusV3Interop ----------------------------
(* The C and the Python coder of Horus Binary v3 messages against the one         *)
(* specification of the message and its octets.  One record per message or octet   *)
(* string; a coder's answer is <<>> when it refused.                                *)
(*   kind "msg":  msg, padded (its octets with filler), what each coder made of it:   *)
(*     cenc, pyenc  octets of msg;  cdec, pydec  msg read from the specification's     *)
(*     octets with filler;  cofpy, pyofc  msg read from the other coder's octets;      *)
(*     cre, pyre  those encoded again;  cuts  lengths of prefixes the C decoder took    *)
(*   kind "raw":  octets, cdec, pydec                                                 *)
EXTENDS HorusV3, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, bad
R == Recs[l]
(* the C coder knows integers of 64 bits and no addition to the first version of the message *)
WideInts(m) == \/ \E j \in DOMAIN m.counts : \E i \in DOMAIN m.counts[j] : Len(Shorten(m.counts[j][i])) > 8
               \/ \E j \in DOMAIN m.sensors : \E i \in DOMAIN m.sensors[j] : \E k \in DOMAIN m.sensors[j][i].values :
                     LET v == m.sensors[j][i].values[k] IN v.kind = "int" /\ \E x \in DOMAIN v.v : Len(Shorten(v.v[x])) > 8
HasReals(m) == \E j \in DOMAIN m.sensors : \E i \in DOMAIN m.sensors[j] : \E k \in DOMAIN m.sensors[j][i].values : m.sensors[j][i].values[k].kind = "real"
First(m) == [m EXCEPT !.via = <<>>, !.future = <<>>]
(* via values without a name of their own are all "unknown" to the Python coder *)
Now(m) == [m EXCEPT !.via = IF @ # <<>> /\ @[1] > 1 THEN <<7>> ELSE @, !.future = <<>>]
IsMsg(b, m) == LET r == Parse(Octets(b)) IN ~r.open /\ r.msg = m /\ (r.used + 7) \div 8 = Len(b)
(* octets for m: exactly the specified ones, but a real's mantissa may be padded *)
Coded(e, m) == e # <<>> /\ (IF HasReals(m) THEN IsMsg(e[1], m) ELSE e[1] = Encode(m))
Msg ==
   LET m == R.msg  c == ~WideInts(m)  v == m.via = <<>> /\ m.future = <<>>  p == m.future = <<>>  E == Octets(R.padded) IN
   IF Verdict(E) # "valid" \/ Parse(E).msg # m \/ SubSeq(R.padded, 1, Len(Encode(m))) # Encode(m) THEN "HARNESS: not the octets of the message"
   ELSE IF p /\ ~Coded(R.pyenc, m) THEN "the Python coder does not encode the message as specified"
   ELSE IF c /\ v /\ ~Coded(R.cenc, m) THEN "the C coder does not encode the message as specified"
   ELSE IF R.pydec # <<Now(m)>> THEN "the Python coder does not read the message from its octets"
   ELSE IF c /\ R.cdec # <<First(m)>> THEN "the C coder does not read the message from its octets"
   ELSE IF c /\ p /\ R.cofpy # <<First(m)>> THEN "the C coder does not read what the Python coder encoded"
   ELSE IF c /\ v /\ R.pyofc # <<m>> THEN "the Python coder does not read what the C coder encoded"
   ELSE IF c /\ v /\ R.cre # R.cenc THEN "a message from Python, encoded again by C, differs from C's own octets"
   ELSE IF c /\ v /\ R.pyre # R.pyenc THEN "a message from C, encoded again by Python, differs from Python's own octets"
   ELSE IF c /\ \E i \in DOMAIN R.cuts : LET r == Parse(Octets(SubSeq(R.padded, 1, R.cuts[i]))) IN ~r.open /\ r.used > 8 * R.cuts[i]
        THEN "the C coder accepted a truncated message"
   ELSE ""
Raw ==
   LET b == Octets(R.octets)  r == Parse(b)  v == Verdict(b)  c == ~WideInts(r.msg) IN
   IF r.open THEN ""
   ELSE IF r.used > Len(b) THEN (IF R.cdec # <<>> THEN "the C coder read past the end" ELSE IF R.pydec # <<>> THEN "the Python coder read past the end" ELSE "")
   ELSE IF v # "valid" THEN ""
   ELSE IF R.pydec # <<Now(r.msg)>> THEN "the Python coder does not read a valid message"
   ELSE IF c /\ R.cdec # <<First(r.msg)>> THEN "the C coder does not read a valid message"
   ELSE ""
Init == l \in 1..(IF Len(Recs) < W THEN Len(Recs) ELSE W) /\ bad = "?"
Look == bad = "?" /\ bad' = (IF R.kind = "msg" THEN Msg ELSE Raw) /\ l' = l
More == bad = "" /\ l + W <= Len(Recs) /\ l' = l + W /\ bad' = "?"
Next == Look \/ More
Accepted == bad \in {"", "?"}
===============================================================================
