"""A stand-in for socket.socket that records datagrams (LOG) and fails as told (PLAN).  Nothing leaves the process."""
import errno, socket

PLAN = {}        # create, reuseport: fail; broadcast, local: "net" | "perm" | "timeout"
LOG = []


class Fake:
    def __init__(self, *a, **k):
        if PLAN.get("create"):
            raise OSError(errno.EMFILE, "stand-in")
        self.open, self.opts = True, []

    def setsockopt(self, level, opt, val):
        if opt == getattr(socket, "SO_REUSEPORT", -1) and PLAN.get("reuseport"):
            raise OSError(errno.ENOPROTOOPT, "stand-in")
        if opt == socket.SO_BROADCAST and val:
            self.opts.append("broadcast")

    def settimeout(self, t):
        pass

    def bind(self, *a):
        pass

    def sendto(self, data, *a):
        addr = a[-1]
        how = "broadcast" if addr[0] in ("<broadcast>", "255.255.255.255") else "local" if addr[0] in ("127.0.0.1", "localhost") else "other"
        if how == "broadcast" and "broadcast" not in self.opts:
            how = "other"
        e = PLAN.get(how)
        LOG.append({"to": how, "port": addr[1], "ok": not e, "data": bytes(data)})
        if e:
            raise {"net": OSError(errno.ENETUNREACH, "stand-in"), "perm": PermissionError(errno.EPERM, "stand-in"), "timeout": socket.timeout("stand-in")}[e]
        return len(data)

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


socket.socket = Fake
