import json, sys
from horusdemodlib.encoder import Encoder
from horusdemodlib.checksums import ukhas_crc
import horusdemodlib.decoder as D
job = json.loads(sys.stdin.read())
enc = Encoder()
out = {"encode": [], "crc": []}
for h in job["encode"]:
    f, n = enc.horus_l2_encode_packet(bytes.fromhex(h))
    out["encode"].append({"n": len(f), "frame": bytes(f).hex()})
for h in job["crc"]:
    out["crc"].append(int(ukhas_crc(bytes.fromhex(h)), 16))
print("RESULT " + json.dumps(out))
