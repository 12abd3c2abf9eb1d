"""Programs of the pipeline, run on real pipes and watched while their source pauses."""
import fcntl, os, select, subprocess, termios, threading, time
from common import *

PATIENCE = 20          # how long to wait for something that is owed


def open_fifo(path, proc):
    """the writing end of a named pipe, as soon as the program has opened it for reading"""
    end = time.time() + 60
    while True:
        try:
            return os.fdopen(os.open(path, os.O_WRONLY | os.O_NONBLOCK), "wb", buffering=0)
        except OSError:
            if time.time() > end or proc.poll() is not None:
                return os.fdopen(os.open(path, os.O_RDWR | os.O_NONBLOCK), "wb", buffering=0)
            time.sleep(0.01)


class Stage:
    """A running pipeline. streams: name -> function(everything on standard output, everything in the watched file) -> ids"""
    def __init__(self, argvs, streams, env=None, cwd="/tmp", watch=None, fifo=None):
        self.streams, self.watch, self.out, self.last = streams, watch, b"", None
        self.procs, prev = [], subprocess.DEVNULL if fifo else subprocess.PIPE
        if fifo:
            if os.path.exists(fifo):
                os.unlink(fifo)
            os.mkfifo(fifo)
        env = dict(os.environ if env is None else env)
        env.pop("PYTHONUNBUFFERED", None)                # as an ordinary user runs it
        for a in argvs:
            p = subprocess.Popen(a, stdin=prev, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=cwd)
            if self.procs:
                prev.close()
            self.procs.append(p)
            prev = p.stdout
        self.src, self.sink = open_fifo(fifo, self.procs[0]) if fifo else self.procs[0].stdin, prev
        os.set_blocking(self.src.fileno(), False)
        os.set_blocking(self.sink.fileno(), False)
        self.broken = False

    def pump(self):
        if self.sink.closed:
            return False
        try:
            b = os.read(self.sink.fileno(), 1 << 20)
        except BlockingIOError:
            return False
        self.out += b
        return bool(b)

    def give(self, data, limit=120):
        end = time.time() + limit
        while data and time.time() < end:
            fds = [] if self.sink.closed else [self.sink]
            r, w, _ = select.select(fds, [self.src], [], 0.5)
            if r and not self.pump():
                time.sleep(0.01)
            if w:
                try:
                    data = data[os.write(self.src.fileno(), data[:65536]):]
                except BrokenPipeError:
                    self.broken = True
                    return
            elif self.procs[0].poll() is not None:
                self.broken = True
                return

    def seen(self):
        while self.pump():
            pass
        f = b""
        if self.watch and os.path.exists(self.watch):
            with open(self.watch, "rb") as h:
                f = h.read()
        if self.last is None or self.last[0] != (len(self.out), len(f)):
            self.last = (len(self.out), len(f)), {k: fn(self.out, f) for k, fn in self.streams.items()}
        return self.last[1]

    def pending(self):
        try:
            return int.from_bytes(fcntl.ioctl(self.src.fileno(), termios.FIONREAD, b"\0" * 4), "little")
        except OSError:
            return 0

    def rest(self, owed, patience=PATIENCE):
        """wait until what is owed has come out (owed: name -> how many), or for long enough"""
        end = time.time() + patience
        while True:
            s = self.seen()
            if all(len(s[k]) >= n for k, n in owed.items()):
                return s
            if time.time() > end:
                return s
            if self.pending():                      # it has not even read everything: give it time
                end = max(end, time.time() + patience / 2) if time.time() < end + 100 else end
            time.sleep(0.01)

    def wait(self, limit=30):
        end = time.time() + limit
        while time.time() < end:
            self.pump()
            if all(p.poll() is not None for p in self.procs):
                break
            time.sleep(0.01)
        ended = all(p.poll() is not None for p in self.procs)
        for p in self.procs:
            if p.poll() is None:
                p.kill()
        s = self.seen()
        codes = [p.wait() for p in self.procs]
        return ended, max(codes, key=abs), s

    def close(self):
        for f in (self.src, self.sink):
            try:
                f.close()
            except OSError:
                pass
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()


def watch(name, argvs, items, pieces, streams, env=None, file=None, gone=None, unit=1, fifo=None):
    """Feed the pieces, pausing after each. items: stream -> [{id, from, by}] in units of input. gone: index of the piece after which
    the reader goes away. Returns one record per stream."""
    st = Stage(argvs, streams, env=env, watch=file, fifo=fifo)
    recs = {k: {"name": name + "/" + k, "items": it, "steps": [], "after": [], "gone": False, "more": 0, "ended": False, "code": 0} for k, it in items.items()}
    have, given = {k: 0 for k in items}, 0
    try:
        for n, p in enumerate(pieces):
            if gone is not None and n == gone:
                st.sink.close()
            st.give(p)
            given += len(p)
            if gone is not None and n >= gone:
                continue
            owed = {k: sum(x["by"] <= given // unit for x in it) for k, it in items.items()}
            s = st.rest(owed)
            for k in items:
                recs[k]["steps"].append({"given": given // unit, "got": s[k][have[k]:]})
                have[k] = max(have[k], len(s[k]))
            if any(have[k] < owed[k] for k in items) or st.broken:
                gone = None                              # enough is known
                break
        if gone is None:
            st.src.close()
        ended, code, s = st.wait()
        for k in items:
            recs[k].update(ended=ended, code=0 if gone is not None else code, gone=gone is not None, more=given // unit)
            if gone is None:
                recs[k]["after"] = s[k][have[k]:]
    finally:
        st.close()
        for f in (file, fifo):
            if f and os.path.exists(f):
                os.unlink(f)
    return list(recs.values())
