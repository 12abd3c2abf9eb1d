"""The real uploader program on its real standard input, for many cycles of the same lines: stand-ins for the network (which answers
well and badly in turn), pauses cut short, half a second of the clock per line.  A line is told on standard output for every summary datagram; nothing is kept here."""
import json, os, sys, time
import clock
_sleep = time.sleep
time.sleep = lambda d: _sleep(min(d, 0.004))
import requests
import standin, fakesock
ANSWERS = json.loads(os.environ["STEADY_ANSWERS"])
n = {"GET": 0, "PUT": 0}


class Told(list):
    def append(self, d):
        os.write(1, b"U\n")


class Sock(fakesock.Fake):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.file = open("/dev/null", "rb")          # a socket occupies a descriptor

    def close(self):
        self.file.close()
        super().close()


def http(m, u, h, b):
    a = ANSWERS[m][n[m] % len(ANSWERS[m])]
    n[m] += 1
    return requests.exceptions.ConnectionError("stand-in") if a == "conn" else (a[0], a[1])


class Lines:
    """standard input; the clock advances with it"""
    def __init__(self, f):
        self.f, self.n = f, 0

    def readline(self, *a):
        self.n += 1
        clock.set(T0 + self.n // 2, self.n % 2 * 500000)
        return self.f.readline(*a)

    def __iter__(self):
        return iter(self.readline, "")

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def __getattr__(self, k):
        return getattr(self.f, k)


T0 = int(os.environ["STEADY_T0"])
clock.set(T0, 0)
sys.stdin = Lines(sys.stdin)
fakesock.LOG = Told()
fakesock.socket.socket = Sock
standin.HTTP = http
import horusdemodlib.uploader as U
sys.argv = ["uploader"] + sys.argv[1:]
U.main()
