"""Worker start functions that do not behave like a well-behaved client: duplicate, foreign and late reports, several
requests at once, lost connections."""

import pickle

from . import simnet, world


def _ask(client):
    world.W.asks(client)


def dup():
    """Reports every block twice, the second time always as a success."""
    import daisy

    w = world.W
    client = daisy.Client()
    while True:
        w.asks(client)
        with client.acquire_block() as block:
            w.answered(client, block)
            if block is None:
                break
            copy = pickle.loads(pickle.dumps(block))
            w.work(block)
        copy.status = daisy.BlockStatus.SUCCESS
        client.release_block(copy)
        copy = pickle.loads(pickle.dumps(copy))
        copy.status = daisy.BlockStatus.FAILED
        client.release_block(copy)


def steal():
    """Reports blocks that other workers hold (as successes and as failures)."""
    import daisy

    w = world.W
    client = daisy.Client()
    me = simnet.ENG.proc
    while True:
        w.asks(client)
        with client.acquire_block() as block:
            w.answered(client, block)
            if block is None:
                break
            others = [b for p, b in w.shared.items() if p is not me]
            w.shared[me] = pickle.dumps(block)
            for data in others:
                for s in (daisy.BlockStatus.SUCCESS, daisy.BlockStatus.FAILED):
                    b = pickle.loads(data)
                    b.status = s
                    client.release_block(b)
            w.work(block)


def late():
    """Loses its connection while it processes the first block, connects again and reports the block as done."""
    import daisy

    w = world.W
    eng = simnet.ENG
    client = daisy.Client()
    once = eng.proc.info["wid"] is not None and not w.shared.get("late")
    while True:
        w.asks(client)
        kept = None
        try:
            with client.acquire_block() as block:
                w.answered(client, block)
                if block is None:
                    break
                if w.shared.get("late"):
                    w.work(block)
                else:
                    w.shared["late"] = True
                    kept = pickle.dumps(block)
                    w.lose(block)
        except Exception:
            if kept is None:
                raise
        if kept is not None:
            client = daisy.Client()
            b = pickle.loads(kept)
            b.status = daisy.BlockStatus.SUCCESS
            client.release_block(b)


def greedy():
    """Sends two requests at once and expects two answers."""
    import daisy
    from daisy.messages import AcquireBlock, ReleaseBlock, RequestShutdown, SendBlock
    from daisy.tcp import TCPClient

    w = world.W
    eng = simnet.ENG
    c = daisy.Context.from_env()
    tid = c["task_id"]
    t = TCPClient(c["hostname"], int(c["port"]))
    open_requests = 0
    shut = 0
    while True:
        while open_requests < 2 and not shut:
            t.send_message(AcquireBlock(tid))
            open_requests += 1
        if open_requests == 0:
            break
        m = t.get_message(timeout=20)
        if m is None:
            if any(w.model.status[k] in ("ready", "wait") for k in w.st.keys if k[0] == tid):
                pass
            w.bad(("C11",), f"request of a worker of {tid} not answered for 20 s")
            return
        open_requests -= 1
        if isinstance(m, RequestShutdown):
            shut += 1
        elif isinstance(m, SendBlock):
            w.work(m.block, allow_many=True)
            m.block.status = daisy.BlockStatus.SUCCESS
            t.send_message(ReleaseBlock(m.block))
        else:
            w.bad(("C11",), f"unexpected answer {m}")
    m = t.get_message(timeout=2)
    if m is not None:
        w.bad(("C11",), f"answer without request: {m}")
    t.disconnect()


def leave():
    """Disconnects gracefully while it holds the first block, then works on with a new connection."""
    import daisy
    from daisy.messages import AcquireBlock, SendBlock
    from daisy.tcp import TCPClient

    w = world.W
    eng = simnet.ENG
    if not w.shared.get("late"):
        w.shared["late"] = True
        c = daisy.Context.from_env()
        t = TCPClient(c["hostname"], int(c["port"]))
        t.send_message(AcquireBlock(c["task_id"]))
        m = t.get_message()
        if isinstance(m, SendBlock):
            w.lose(m.block, cut=False)
        t.disconnect()
    world.spawn()


def remote():
    """Has a process elsewhere (not a child that is stopped with the worker) do the work, like a job on a cluster."""
    world.W.pick_start()
    p = simnet.SimProcess(target=_remote, name=f"remote of {simnet.ENG.proc.name}")
    p.start()
    p.join()


def _remote():
    from daisy.tcp.exceptions import NotConnected
    from daisy.tcp import StreamClosedError

    try:
        world.client_loop()
    except (StreamClosedError, NotConnected):
        # (reporting a block if the server is gone)
        pass


FNS = {"remote": remote, "dup": dup, "steal": steal, "late": late, "greedy": greedy, "leave": leave}
