--------------------------------- MODULE Crc ---------------------------------
(* CRC16-CCITT, polynomial 0x1021, initial value 0xFFFF, bit by bit.           *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
CrcBit(c) == LET d == (c * 2) % 65536 IN IF c >= 32768 THEN d ^^ 4129 ELSE d
CrcByte(c, b) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(c ^^ (b * 256)))))))))
Crc16(B) == FoldLeft(LAMBDA c, b : CrcByte(c, b), 65535, B)
U16(B, o) == B[o + 1] + 256 * B[o + 2]                  \* little endian, offset from 0
TailOk(B) == Len(B) >= 3 /\ U16(B, Len(B) - 2) = Crc16(SubSeq(B, 1, Len(B) - 2))
HeadOk(B) == Len(B) >= 3 /\ U16(B, 0) = Crc16(SubSeq(B, 3, Len(B)))
==============================================================================
