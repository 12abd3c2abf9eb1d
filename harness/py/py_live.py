"""The real uploader program on its real standard input, with stand-ins for the network.  What it sends is told on standard output
as it happens: U <altitude> (payload summary by UDP), P <altitude> (telemetry uploaded)."""
import gzip, json, os, sys
import standin, fakesock


class Told(list):
    def append(self, d):
        try:
            n = json.loads(d["data"].decode())
            if n.get("type") == "PAYLOAD_SUMMARY":
                os.write(1, b"U %d\n" % n["altitude"])
        except ValueError:
            os.write(1, b"U -2\n")


def http(m, u, h, b):
    if m == "PUT" and "listener" not in u and "telemetry" in u:
        for x in json.loads(gzip.decompress(b) if h.get("Content-Encoding") == "gzip" else b):
            os.write(1, b"P %d\n" % x["alt"])
    return (200, "{}")


fakesock.LOG = Told()
standin.HTTP = http
import horusdemodlib.uploader as U
sys.argv = ["uploader"] + sys.argv[1:]
U.main()
