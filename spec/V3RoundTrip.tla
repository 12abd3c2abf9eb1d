---------------------------- MODULE V3RoundTrip ----------------------------
(* The packed encoding of HorusV3 is a code: every message is read back from its  *)
(* octets, also with filler behind it, and no shorter octet string is valid.       *)
(* Messages: every combination of present parts, at the low or high ends.           *)
EXTENDS HorusV3, TLC
CONSTANTS Cut,                                \* also try every truncation
          Few                                 \* let some parts come and go together
P(lo, hi) == {<<>>, <<lo>>, <<hi>>}
Null4 == << <<>>, <<>>, <<>>, <<>> >>
Sensors == {<<>>, << <<[name |-> <<>>, values |-> <<>>]>> >>,
            << <<[name |-> << <<45, 57, 122>> >>, values |-> <<[kind |-> "str", v |-> <<97, 32, 122>>]>>],
                 [name |-> <<>>, values |-> <<[kind |-> "int", v |-> << <<0>>, <<255, 127>>, <<127, 255, 255, 255, 255, 255, 255, 255>> >>]>>],
                 [name |-> << <<48>> >>, values |-> <<[kind |-> "real", v |-> <<Zero, [k |-> "fin", neg |-> TRUE, m |-> <<205>>, e |-> -1074], [k |-> "inf", neg |-> TRUE, m |-> <<>>, e |-> 0], [k |-> "nan", neg |-> FALSE, m |-> <<>>, e |-> 0]>>]>>],
                 [name |-> <<>>, values |-> <<[kind |-> "bool", v |-> <<TRUE, FALSE, TRUE, TRUE, FALSE, FALSE, FALSE, TRUE>>]>>]>> >>}
Lo == [call |-> <<45>>, seq |-> 0, tod |-> -1, lat |-> -9000000, lon |-> -18000000, alt |-> -1000]
Hi == [call |-> <<122, 90, 57, 48, 65, 97, 47, 45, 122, 122, 122, 122, 122, 122, 122>>, seq |-> 65535, tod |-> 86400, lat |-> 9000000, lon |-> 18000000, alt |-> 50000]
VARIABLES m, whole
With(base, se, ve, sa, as, pr, te, hu, mi, co, ps, cu, vi, fu) ==
   [call |-> base.call, seq |-> base.seq, tod |-> base.tod, lat |-> base.lat, lon |-> base.lon, alt |-> base.alt,
    sensors |-> se, vel |-> ve, sats |-> sa, asc |-> as, press |-> pr, temps |-> te, hum |-> hu, mv |-> mi, counts |-> co, psm |-> ps, custom |-> cu, via |-> vi, future |-> fu]
Pick(high, lo, hi) == {<<>>, IF high THEN <<hi>> ELSE <<lo>>}
Init == \E h \in BOOLEAN : \E se \in Sensors :
        \E ve \in Pick(h, 0, 512), sa \in Pick(h, 0, 31), as \in Pick(h, -32767, 32767), pr \in Pick(h, 0, 12000) :
           /\ Few => Len(ve) = Len(sa) /\ Len(as) = Len(pr) /\ Len(ve) = Len(as)
           /\ m = With(IF h THEN Hi ELSE Lo, se, ve, sa, as, pr, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>)
           /\ whole = FALSE
Next == /\ ~whole /\ whole' = TRUE
        /\ LET h == m.seq # 0 IN
           \E te \in Pick(h, Null4, << <<-1023>>, <<1023>>, <<>>, <<0>> >>), hu \in Pick(h, 0, 100), mi \in Pick(h, << <<>>, <<16383>>, <<0>>, <<>> >>, << <<1>>, <<2>>, <<3>>, <<4>> >>),
           co \in Pick(h, << <<0>> >>, << <<128>>, <<0, 128>>, <<255>>, <<1>>, <<2>>, <<3>>, <<4>>, <<127>> >>), ps \in Pick(h, 0, 5), cu \in Pick(h, <<>>, <<255, 0, 1>>), vi \in Pick(h, 0, 7) :
           \E fu \in (IF vi = <<>> THEN {<<>>, << <<>>, << <<1, 2>> >> >>} ELSE {<<>>, << << <<7>> >> >>}) :
           m' = [m EXCEPT !.temps = te, !.hum = hu, !.mv = mi, !.counts = co, !.psm = ps, !.custom = cu, !.via = vi, !.future = fu]
E == Encode(m)
Whole(b) == LET r == Parse(b) IN r.msg = m /\ ~r.open /\ r.used <= Len(b)
ReadBack == Whole(Octets(E)) /\ Verdict(Octets(E)) = "valid"
Filler == Whole(Octets(E \o <<0, 255, 0>>))
Exact == LET r == Parse(Octets(E)) IN (r.used + 7) \div 8 = Len(E)
NoShorter == Cut => \A n \in 1..(Len(E) - 1) : Verdict(Octets(SubSeq(E, 1, n))) # "valid"
=============================================================================
