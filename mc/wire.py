"""C13: the TCP layer on its own, with control over every event loop step, over how bytes are cut into pieces and over
the points at which an end disappears."""

from . import simnet
from .core import Result, Violation


class Wire:
    """spec: clients: list of {"send": [sizes], "threads": n, "end": "disconnect"|"stay"|"exit"}, reply: sizes of the
    server's answers per message, frag: {"chunk":..., "capacity":...}, kill: "client"|"server"|None, close: "server" """

    def __init__(self, spec, prefix, trace=False):
        self.spec = spec
        self.eng = simnet.Engine(prefix, fine=spec.get("fine", True), frag=spec.get("frag"), trace=trace, horizon=30.0)
        self.eng.time_choice = spec.get("time_choice", False)
        self.viol = []
        self.got_server = {}
        self.got_client = {}
        self.sent_client = {}
        self.sent_server = {}
        self.streams = {}
        self.closes = 0
        self.killed = None
        self.client_end = {}
        self.ready = False
        self.server_closed = False

    def bad(self, what, props=("C13",)):
        self.viol.append((tuple(props), what))
        self.eng.trace("VIOLATION", what)

    @staticmethod
    def payload(who, i, size):
        return (who, i, (bytes((i * 7 + j) % 251 for j in range(251)) * (size // 251 + 1))[:size])

    # -- server process

    def server(self):
        from daisy.tcp import TCPServer, StreamClosedError

        w, spec = self, self.spec
        srv = TCPServer(host="127.0.0.1")
        w.port = srv.address[1]
        w.ready = True
        replies = spec.get("reply", [])
        expected = sum(len(c["send"]) for c in spec["clients"])
        n = 0
        idle = 0
        while idle < 8:
            try:
                m = srv.get_message(timeout=0.1)
            except StreamClosedError as e:
                w.closes += 1
                w.eng.trace("server told about a closed stream")
                continue
            except Exception as e:
                w.bad(f"get_message of the server raises {e!r}")
                continue
            if m is None:
                idle += 1
                if idle > 4:
                    w.eng.inject_left = 0
                continue
            idle = 0
            n += 1
            p = m.payload
            w.eng.trace("server got", p[0], p[1])
            c = p[0]
            w.got_server.setdefault(c, []).append(p)
            w.streams[c] = m.stream
            for i, size in enumerate(replies):
                j = len(w.sent_server.setdefault(c, []))
                q = w.payload(("reply", c), j, size)
                from daisy.tcp import TCPMessage

                try:
                    m.stream.send_message(TCPMessage(q))
                    w.sent_server[c].append(q)
                except StreamClosedError:
                    w.eng.trace("sending raises StreamClosedError")
                except Exception as e:
                    w.bad(f"sending to a client raises {e!r}")
            if spec.get("close") == "server" and n == spec.get("close_after", 1):
                w.server_closed = True
                srv.disconnect()
                w.eng.trace("server disconnects")
        for c, s in w.streams.items():
            w.closed_seen[c] = bool(s.closed())
            if s.closed():
                try:
                    from daisy.tcp import TCPMessage

                    s.send_message(TCPMessage("x"))
                    w.bad("send_message over a closed stream does not raise")
                except StreamClosedError:
                    pass
                except Exception as e:
                    w.bad(f"send_message over a closed stream raises {e!r}")
        w.server_done = True

    server_done = False

    # -- client processes

    def client(self, cid):
        from daisy.tcp import TCPClient, TCPMessage, StreamClosedError
        from daisy.tcp.exceptions import NotConnected

        w = self
        c = self.spec["clients"][cid]
        try:
            t = TCPClient("127.0.0.1", w.port)
        except Exception as e:
            if not w.killed:
                w.bad(f"connecting raises {e!r}")
            w.client_end[cid] = "no connection"
            return
        w.sent_client[cid] = []
        state = {"closed": None}

        def sender(k, n):
            for i, size in enumerate(c["send"]):
                if i % n != k:
                    continue
                q = w.payload(cid, i, size)
                try:
                    t.send_message(TCPMessage(q))
                    w.sent_client[cid].append(q)
                except (StreamClosedError, NotConnected) as e:
                    state["closed"] = "send"
                    return
                except Exception as e:
                    w.bad(f"sending raises {e!r}")
                    return

        n = c.get("threads", 1)
        ths = [simnet.SimThread(target=sender, args=(k, n)) for k in range(1, n)]
        for th in ths:
            th.start()
        sender(0, n)
        for th in ths:
            th.join()
        want = len(c["send"]) * len(self.spec.get("reply", []))
        got = w.got_client.setdefault(cid, [])
        idle = 0
        first = True
        while len(got) < want or idle < 0 or (self.spec.get("close") == "server"):
            try:
                m = t.get_message(timeout=0.1)
            except StreamClosedError:
                state["closed"] = "get"
                w.eng.trace("client told about the closed stream")
                break
            except NotConnected:
                state["closed"] = state["closed"] or "notconnected"
                if state["closed"] == "notconnected":
                    w.bad(f"client {cid} finds itself disconnected without having been told why")
                break
            except Exception as e:
                w.bad(f"get_message of the client raises {e!r}")
                break
            if m is None:
                idle += 1
                if idle > 30:
                    break
                continue
            idle = 0
            w.eng.trace("client got", m.payload[0], m.payload[1])
            got.append(m.payload)
        w.client_closed[cid] = state["closed"]
        if state["closed"]:
            for what, f in (("get_message", lambda: t.get_message(timeout=0.1)),
                            ("send_message", lambda: t.send_message(TCPMessage("x")))):
                try:
                    f()
                    w.bad(f"{what} after the connection was lost does not raise")
                except (NotConnected, StreamClosedError):
                    pass
                except Exception as e:
                    w.bad(f"{what} after the connection was lost raises {e!r}")
            w.client_end[cid] = "closed"
            return
        end = c.get("end", "disconnect")
        if end == "disconnect":
            try:
                t.disconnect()
            except Exception as e:
                w.bad(f"disconnect raises {e!r}")
            if t.connected():
                w.bad("still connected after disconnect()")
            try:
                x = t.get_message(timeout=0.1)
                if not self.killed and not self.server_closed:
                    w.bad("get_message after disconnect() does not raise")
            except NotConnected:
                pass
            except StreamClosedError:
                if not self.killed and not self.server_closed:
                    w.bad("a graceful disconnect is reported as an error")
        elif end == "stay":
            w.eng.sleep(3)
        w.client_end[cid] = end

    # -- main

    def main(self):
        eng = self.eng
        p = simnet.SimProcess(target=self.server, name="server")
        p.start()
        eng.wait(lambda: self.ready or not p._proc.alive)
        cs = []
        for i in range(len(self.spec["clients"])):
            q = simnet.SimProcess(target=self.client, args=(i,), name=f"client{i}")
            q.start()
            cs.append(q)
        self.cprocs = cs
        self.sproc = p
        kill = self.spec.get("kill")
        if kill:
            eng.inject_left = 1
        for q in cs:
            q.join()
        eng.inject_left = 0 if kill == "client" else eng.inject_left
        p.join()

    def injections(self):
        kill = self.spec["kill"]
        p = self.sproc._proc if kill == "server" else self.cprocs[0]._proc
        if not p.alive:
            return []
        return [(f"kill {p.name}", lambda: self.do_kill(p))]

    def do_kill(self, p):
        self.killed = p
        self.eng.kill_proc(p, -9)

    def run(self):
        self.closed_seen = {}
        self.client_closed = {}
        eng = self.eng
        eng.inject = self.injections
        self.result = eng.run(self.main)
        self.judge()

    def judge(self):
        kind, val = self.result
        spec = self.spec
        if kind == "hang":
            who = [c for c in range(len(spec["clients"])) if c not in self.client_end]
            return self.bad(f"does not end ({val}); clients that did not end: {who}", ("C13",))
        if kind == "raised":
            return self.bad(f"raises {val!r}")
        for name, e in self.eng.thread_errors:
            self.bad(f"{name} raises {e!r}")
        for p in self.eng.procs:
            if "error" in p.info:
                self.bad(f"{p.name} raises {p.info['error']!r}")
        k = spec.get("kill")
        for c, cs in enumerate(spec["clients"]):
            sent = self.sent_client.get(c, [])
            got = self.got_server.get(c, [])
            n = cs.get("threads", 1)
            hurt = (k == "server" and self.killed) or (k == "client" and c == 0 and self.killed) or self.server_closed
            # in order (per sending thread), unchanged, at most once
            for th in range(n):
                s = [self.payload(c, i, size) for i, size in enumerate(cs["send"]) if i % n == th]
                g = [p for p in got if p in s]
                if g != s[: len(g)]:
                    self.bad(f"client {c} sent {[(x[1], len(x[2])) for x in s]}, the server received "
                             f"{[(x[1], len(x[2])) for x in g]} of these")
                if not hurt and len(g) < len([x for x in sent if x in s]):
                    self.bad(f"client {c} sent {len(s)} messages, the server received {len(g)}")
            if any(p not in [self.payload(c, i, z) for i, z in enumerate(cs["send"])] for p in got):
                self.bad(f"the server received something client {c} did not send")
            s = self.sent_server.get(c, [])
            g = self.got_client.get(c, [])
            if g != s[: len(g)]:
                self.bad(f"the server sent {len(s)} replies to client {c}, which received {[(x[1], len(x[2])) for x in g]}")
            if not hurt and len(g) < len(s):
                self.bad(f"client {c} received {len(g)} of {len(s)} replies")
            if c in self.closed_seen and not self.closed_seen[c] and cs.get("end") != "stay" and not (k == "server"):
                self.bad(f"the server does not notice that client {c} is gone")
            if hurt and k == "client" and c == 0 and c in self.streams and not self.closed_seen.get(c, True):
                self.bad("the server does not notice that the client is gone")
            if hurt and (k == "server" or self.server_closed) and c in self.client_end and self.client_end[c] not in (
                    "closed", "no connection") and len(g) < len(cs["send"]) * len(spec.get("reply", [])):
                self.bad(f"client {c} does not notice that the server is gone")
        if k != "server" or not self.killed:
            graceful = sum(1 for c in range(len(spec["clients"])) if self.client_end.get(c) == "disconnect")
            gone = len(spec["clients"]) - graceful
            if not self.killed and not self.server_closed and gone == 0 and self.closes:
                self.bad("a graceful disconnect is reported as an error to the server")
            if self.closes > len(spec["clients"]):
                self.bad(f"{self.closes} closed streams reported for {len(spec['clients'])} clients")

    def outcome(self):
        return (f"{self.result[0]} killed={self.killed.name if self.killed else None} closes={self.closes} "
                f"server got {[len(v) for v in self.got_server.values()]} clients got {[len(v) for v in self.got_client.values()]}")


def run_wire(spec, prefix, trace=False):
    w = Wire(spec, prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices, r.result, r.violations = w.eng.choices, w.result, w.viol
    r.steps, r.diverged, r.log, r.outcome, r.eng = w.eng.steps, w.eng.diverged, w.eng.log, w.outcome(), None
    return r


def explore(spec, budget, total=None, part=(0, 1), name="", max_runs=None):
    from . import world

    return world.explore(spec, budget, total, part, name=name, max_runs=max_runs, runner="mc.wire:run_wire")
