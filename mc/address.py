"""C25: how a server comes up: the port it listens on and the address it announces, with every network call it makes on the
way failing, hanging or answering nonsense."""

import errno
import socket as _socket

from . import simnet
from .core import Result, Violation  # noqa

HERE = "127.0.0.1"


class NetSocket:
    """A socket of the machine the server runs on; made by the code under test only to find out its address."""

    def __init__(self, net, family=_socket.AF_INET, type=_socket.SOCK_STREAM, *a, **kw):
        self.net = net
        self.type = type
        self.timeout = None
        self.closed = False
        self.name = ("0.0.0.0", 0)
        self.listening = False
        self.backlog = []
        self.peer = None
        self.buf = b""
        net.socks.append(self)

    @property
    def udp(self):
        return self.type & 0xF == _socket.SOCK_DGRAM

    def _fault(self, call, hang=False, extra=()):
        kinds = ["error"] + (["hang"] if hang else []) + list(extra)
        kind = self.net.fault(("udp " if self.udp else "tcp ") + call, kinds)
        if kind == "error":
            raise OSError(errno.ENOTCONN, f"{call} fails")
        if kind == "hang":
            self._hang(call)
        return kind

    def _hang(self, call):
        if self.timeout is None:
            self.net.forever(call)
        simnet.ENG.sleep(self.timeout)
        raise TimeoutError("timed out")

    # -- the interface of sockets

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1

    def bind(self, addr):
        self._fault("bind")
        if addr[0] not in self.net.mine:
            raise OSError(errno.EADDRNOTAVAIL, "not an address of this machine")
        self.name = (addr[0], addr[1] or self.net.port())

    def listen(self, n=128):
        self._fault("listen")
        self.listening = True

    def connect(self, addr):
        self._fault("connect", hang=not self.udp)
        if self.udp:
            if self.net.route is None:
                raise OSError(errno.ENETUNREACH, "network is unreachable")
            self.name = (self.net.route, self.net.port())
            return
        for s in self.net.socks:
            if s.listening and not s.closed and s.name == (addr[0], addr[1]):
                c = NetSocket(self.net)
                c.name, c.peer, self.peer = s.name, self, c
                self.name = (addr[0], self.net.port())
                s.backlog.append(c)
                return
        raise ConnectionRefusedError(errno.ECONNREFUSED, "connection refused")

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.ETIMEDOUT
        return 0

    def accept(self):
        self._fault("accept", hang=True)
        if not self.backlog:
            self._hang("accept")
        c = self.backlog.pop(0)
        return c, c.peer.name

    def send(self, data, *a):
        self._fault("send")
        if self.peer is None or self.peer.closed:
            raise BrokenPipeError(errno.EPIPE, "broken pipe")
        self.peer.buf += bytes(data)
        return len(data)

    def sendall(self, data, *a):
        self.send(data)

    def recv(self, n, *a):
        kind = self._fault("recv", hang=True, extra=("end", "nonsense"))
        if kind == "end":
            return b""
        if kind == "nonsense":
            return (b"\0" * n)[: max(1, len(self.buf))]
        if not self.buf:
            if self.peer is None or self.peer.closed:
                return b""
            self._hang("recv")
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def getsockname(self):
        return self.name

    def getpeername(self):
        return self.peer.name if self.peer else ("0.0.0.0", 0)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Hangs(BaseException):
    pass


class Net:
    def __init__(self, eng, route):
        self.eng = eng
        self.route = route
        self.mine = {HERE, "localhost", "0.0.0.0", ""} | ({route} if route else set())
        self.socks = []
        self.struck = []
        self.lasting = {}
        self.hangs = None
        self.ports = 55000

    def port(self):
        self.ports += 1
        return self.ports

    def fault(self, call, kinds):
        if call in self.lasting:
            # (the machine is like that)
            self.struck.append((call, self.lasting[call]))
            return self.lasting[call]
        c = self.eng.choose("n", 1 + len(kinds), call)
        if c:
            self.struck.append((call, kinds[c - 1]))
            self.eng.trace("FAULT", call, kinds[c - 1])
            return kinds[c - 1]
        return None

    def forever(self, call):
        self.hangs = call
        raise Hangs(call)

    # -- what the socket module offers

    def socket(self, family=-1, type=-1, *a, **kw):
        s = NetSocket(self, type=_socket.SOCK_STREAM if type == -1 else type)
        try:
            s._fault("socket")
        except OSError:
            self.socks.remove(s)
            raise
        return s

    def create_connection(self, addr, timeout=None, *a, **kw):
        s = self.socket()
        s.settimeout(timeout)
        try:
            s.connect(addr)
        except BaseException:
            s.close()
            raise
        return s

    def create_server(self, addr, **kw):
        s = self.socket()
        try:
            s.bind(addr)
            s.listen()
        except BaseException:
            s.close()
            raise
        return s


def run_address(spec, prefix, trace=False):
    """spec: route (address of the default route or None), host (given to the server or None), busy (how often no port can
    be had), tries (max_port_tries or None), what: "tcp" | "server" """
    eng = simnet.Engine(prefix, trace=trace)
    eng.time_choice = False
    net = eng.net = Net(eng, spec["route"])
    eng.busy = spec.get("busy", 0)
    viol = []

    def bad(what):
        viol.append((("C25",), what))
        eng.trace("VIOLATION", what)

    boxes = []

    def main():
        # (several servers, one after the other, if asked for; each may meet other faults)
        keep = []
        for i in range(spec.get("servers", 1)):
            box = {}
            boxes.append(box)
            before = set(eng.listeners)
            del net.struck[:]
            start(box, keep)
            box["listening"] = set(eng.listeners) - before
            box["struck"] = list(net.struck)
            if spec.get("lasting"):
                net.lasting.update(net.struck)
            if box["r"] == "hangs":
                break

    def start(box, keep):
        from daisy.tcp import TCPServer
        from daisy.tcp.exceptions import NoFreePort
        import daisy

        kw = {} if spec.get("host") is None else {"host": spec["host"]}
        if spec.get("tries") is not None:
            kw["max_port_tries"] = spec["tries"]
        t0 = eng.now
        try:
            if spec.get("what") == "server":
                s = daisy.Server(**kw)
                box["r"] = (s.hostname, s.port)
            else:
                s = TCPServer(**kw)
                box["r"] = tuple(s.address)
            keep.append(s)
        except NoFreePort as e:
            box["r"] = "NoFreePort"
            if not str(e):
                bad("NoFreePort without explanation")
        except Hangs:
            box["r"] = "hangs"
        except Exception as e:
            box["r"] = f"raises {type(e).__name__}: {e}"
        box["t"] = eng.now - t0

    kind, val = eng.run(main)
    r = simnet.Run()
    if kind != "ok":
        bad(f"{kind}: {val!r}")
    got = None
    before = []
    for box in boxes:
        got = box.get("r")
        struck = box.get("struck", net.struck)
        tries = spec.get("tries")
        if tries is not None and spec.get("busy", 0) >= tries:
            want = "NoFreePort"
            if got != want:
                bad(f"no port is free in {tries} tries, the server {got}")
        else:
            if spec.get("host") is not None:
                want = spec["host"]
            elif spec["route"] is None or struck:
                want = HERE
            elif before and spec.get("lasting"):
                want = HERE
            elif before and got[0] == HERE:
                # (it did not try again)
                want = HERE
            else:
                want = spec["route"]
            before += struck
            if not isinstance(got, tuple):
                bad(f"the server does not come up: {got} {net.hangs or ''}; faults: {struck}")
            else:
                if got[0] != want:
                    bad(f"the server announces {got[0]}, should be {want}; faults: {struck}")
                if got[1] not in box["listening"] or len(box["listening"]) != 1:
                    bad(f"the server announces port {got[1]} but listens on {sorted(box['listening'])}")
                if box["t"] > 20:
                    bad(f"the server takes {box['t']:.0f} s to come up; faults: {struck}")
    left = [s for s in net.socks if not s.closed and s not in [b for x in net.socks for b in x.backlog]]
    if left and got != "hangs":
        bad(f"{len(left)} sockets are left open; faults: {net.struck}")
    r.choices = eng.choices
    r.result = (kind, val)
    r.violations = viol
    r.steps = eng.steps
    r.diverged = eng.diverged
    r.log = eng.log
    r.outcome = "; ".join(f"{b['r'] if not isinstance(b['r'], tuple) else b['r'][0]} after {len(b.get('struck', ()))} faults"
                          for b in boxes if "r" in b)
    r.eng = None
    return r


def worlds(tier):
    th = tier == "thorough"
    for what in ("tcp", "server"):
        for route in ("10.0.0.5", "192.168.178.20", HERE, None):
            for host in (None, "10.7.7.7", "node17.cluster"):
                n = 4 if th else 3
                yield f"{what} route={route} host={host}", dict(what=what, route=route, host=host), {"n": n}
        for route in ("10.0.0.5", None):
            # servers of earlier runs do not matter
            yield f"{what} twice route={route}", dict(what=what, route=route, host=None, servers=2), {"n": 3 if th else 2}
            yield f"{what} twice, faults that last, route={route}", dict(what=what, route=route, host=None, servers=3,
                                                                         lasting=True), {"n": 2 if th else 1}
            yield f"{what} three times route={route}", dict(what=what, route=route, host=None, servers=3), {"n": 2 if th else 1}
    for busy in range(0, 6):
        for tries in (None, 1, 2, 3, 5):
            yield f"busy={busy} tries={tries}", dict(what="tcp", route="10.0.0.5", host=None, busy=busy, tries=tries), {"n": 1}
    for busy in (900, 999, 1000):
        yield f"busy={busy} tries=1000", dict(what="tcp", route=None, host=None, busy=busy, tries=1000), {}


def multi(items, props):
    from .world import explore

    res = Result()
    for name, spec, budget in items:
        res.merge(explore(spec, budget, None, (0, 1), props, name, runner="mc.address:run_address"))
    return res
