"""Whole lives of Python receivers (HorusLib), encoders and custom field decoders, one per line of standard input."""
import sys
from horusdemodlib.demod import HorusLib, Mode
from horusdemodlib.encoder import Encoder
import horusdemodlib.decoder as D
M = {0: Mode.BINARY_V1, 89: Mode.RTTY_7N1, 90: Mode.RTTY_7N2, 91: Mode.RTTY_8N2}
sig = open(sys.argv[1], "rb").read()
k = 0
for line in sys.stdin:
    mode, quad = map(int, line.split())
    with HorusLib(mode=M[mode], tone_spacing=270 if mode == 0 else 450, stereo_iq=bool(quad), sample_rate=(48000, 44100, 8000)[k % 3]) as h:
        k += 1
        for i in range(0, len(sig), 20000 + k % 3):
            h.add_samples(sig[i:i + 20000 + k % 3])
    e = Encoder()
    e.horus_l2_encode_packet(bytes([k % 256] * 22))
    try:
        D.decode_packet(bytes([k % 256] * 32))
    except Exception:
        pass
    print("U", flush=True)
