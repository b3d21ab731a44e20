"""Redis deployments that speak RESP, for simulations.

redis-py runs unmodified: only ``asyncio.open_connection`` is replaced, so that it connects to a
server inside the simulation.  A deployment is a single server, a cluster (which refuses keys of
other slots, and requests or scripts over several), or a master watched by Sentinels.  Storage and
latencies are those of sim.py, so are outages, lost requests and replies, and killed nodes.
"""
from __future__ import annotations

import asyncio
import re
import ssl
from collections import deque
from typing import Any

import burner_redis
from redis.crc import key_slot

REAL_OPEN, REAL_UNIX = asyncio.open_connection, asyncio.open_unix_connection
CRLF = b"\r\n"


class Status(str):
    pass


class Err(Exception):
    pass


class Nil:
    """The null array."""


def _num(x: Any) -> bytes:
    return (b"%d" % x) if float(x).is_integer() and abs(x) < 1e17 else repr(float(x)).encode()


def encode(v: Any, proto: int) -> bytes:
    if v is None:
        return b"_\r\n" if proto == 3 else b"$-1\r\n"
    if v is Nil:
        return b"_\r\n" if proto == 3 else b"*-1\r\n"
    if isinstance(v, Status):
        return b"+" + v.encode() + CRLF
    if isinstance(v, bool):
        return b":%d\r\n" % int(v)
    if isinstance(v, int):
        return b":%d\r\n" % v
    if isinstance(v, float):
        return (b"," + repr(v).encode() + CRLF) if proto == 3 else encode(_num(v), proto)
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, (bytes, bytearray, memoryview)):
        v = bytes(v)
        return b"$%d\r\n" % len(v) + v + CRLF
    if isinstance(v, Exception):
        text = str(v).replace("\r", " ").replace("\n", " ")
        if not re.match(r"[A-Z]{3,} ", text):
            text = "ERR " + text
        return b"-" + text.encode() + CRLF
    if isinstance(v, dict):
        body = b"".join(encode(x, proto) for kv in v.items() for x in kv)
        return (b"%%%d\r\n" % len(v) if proto == 3 else b"*%d\r\n" % (2 * len(v))) + body
    if isinstance(v, (set, frozenset)):
        return (b"~" if proto == 3 else b"*") + b"%d\r\n" % len(v) + b"".join(encode(x, proto) for x in sorted(v))
    if isinstance(v, (list, tuple)):
        return b"*%d\r\n" % len(v) + b"".join(encode(x, proto) for x in v)
    raise TypeError(f"cannot put {v!r} on the wire")


class Parser:
    def __init__(self) -> None:
        self.buf = b""

    def feed(self, data: bytes) -> list[list[bytes]]:
        self.buf += data
        out = []
        while (c := self._one()) is not None:
            out.append(c)
        return out

    def _one(self) -> list[bytes] | None:
        b, i = self.buf, self.buf.find(CRLF)
        if i < 0:
            return None
        n, i = int(b[1:i]), i + 2
        args = []
        for _ in range(n):
            j = b.find(CRLF, i)
            if j < 0:
                return None
            size = int(b[i + 1:j])
            if len(b) < j + 2 + size + 2:
                return None
            args.append(b[j + 2:j + 2 + size])
            i = j + 2 + size + 2
        self.buf = b[i:]
        return args


class _Transport:
    def __init__(self, conn: "Conn"):
        self.conn = conn

    def get_extra_info(self, name, default=None):
        return default

    def is_closing(self):
        return self.conn.closed

    def close(self):
        self.conn.close()

    abort = close


class Writer:
    """What redis-py sees of asyncio.StreamWriter."""

    def __init__(self, conn: "Conn"):
        self.conn, self.transport = conn, _Transport(conn)

    def write(self, data):
        if self.conn.closed:
            return
        cmds = self.conn.parser.feed(bytes(data))
        if cmds:
            self.conn.inbox.append(cmds)
            self.conn.poke()

    def writelines(self, parts):
        self.write(b"".join(parts))

    async def drain(self):
        if self.conn.broken:
            raise ConnectionResetError("simulated: connection reset")
        await asyncio.sleep(0)

    def close(self):
        self.conn.close()

    def is_closing(self):
        return self.conn.closed

    async def wait_closed(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


HARNESS = (TypeError, LookupError, AttributeError, AssertionError)  # this server's own mistakes, never replies


class Broken(Exception):
    pass


class Conn:
    """The server's side of one connection."""

    def __init__(self, net: "Net", node, host: str, port: int, daemon: bool = False):
        self.net, self.sim, self.node, self.host, self.port = net, net.sim, node, host, port
        self.daemon, self.user, self.db = daemon, None, 0
        self.reader = asyncio.StreamReader(limit=2**26, loop=net.sim.loop)
        self.writer = Writer(self)
        self.parser = Parser()
        self.inbox: list[list[list[bytes]]] = []
        self.waiter: asyncio.Future | None = None
        self.closed = self.broken = False
        self.proto, self.multi = 2, None
        self.channels: set[bytes] = set()
        self.patterns: dict[bytes, re.Pattern[bytes]] = {}
        self.next_at = 0.0
        self.outbox: deque[bytes] = deque()
        self.task = net.sim.loop.create_task(self.serve())

    # -- life -----------------------------------------------------------------
    def poke(self) -> None:
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    def close(self) -> None:
        """Closed by the client, as asyncio does it: a reader that still waits reads the end."""
        if not self.closed and not self.broken:
            self.sim.loop.call_soon(self.reader.feed_eof)
        self.closed = True
        if self in self.net.server.subs:
            self.net.server.subs.remove(self)
        self.net.conns.discard(self)
        self.net.server.wake()
        self.poke()

    def reset(self) -> None:
        if not self.closed:
            self.broken = True
            self.close()
            self.reader.feed_eof()

    def send(self, data: bytes, wait: float = 0.0) -> None:
        at = max(self.next_at, self.sim.loop.time() + wait)
        self.next_at = at
        self.outbox.append(data)
        self.sim.loop.call_at(at, self._deliver)

    def _deliver(self) -> None:
        data = self.outbox.popleft()
        if not self.closed:
            self.reader.feed_data(data)

    def _lag(self) -> float:
        from .sim import LATENCY

        base, spread, p, spike = LATENCY[self.node.latency]
        d = base + (self.sim.rng.random() * spread if spread else 0.0)
        return d + (self.sim.rng.random() * spike if p and self.sim.rng.random() < p else 0.0)

    # -- serving --------------------------------------------------------------
    async def serve(self) -> None:
        sim, node = self.sim, self.node
        try:
            while not self.closed:
                if not self.inbox:
                    self.waiter = sim.loop.create_future()
                    sim.track(self.waiter)
                    await sim.wait_fut(self.waiter, None, node)
                    if node.dead:
                        self.broken = True  # nobody is left to read
                        self.close()
                        return
                    if node.is_out(sim.now()):
                        raise Broken
                    continue
                batch = self.inbox.pop(0)
                await sim.latency(node)
                for args in batch:
                    await self.command(args)
        except Broken:
            self.reset()
        except Exception as e:  # noqa: BLE001
            import traceback

            self.net.errors.append("".join(traceback.format_exception(e)))
            self.reset()

    async def command(self, args: list[bytes]) -> None:
        sim, node = self.sim, self.node
        name = args[0].decode().lower()
        setup = name in ("hello", "client", "auth", "select", "ping", "cluster", "command", "sentinel", "readonly", "info")
        fault = None if setup else sim._fault_for(node, name, tuple(args[1:]))
        if node.dead:
            await sim.never(node)
        if fault == "kill_before":
            node.kill()
            await sim.never(node)
        if fault == "drop_request" or node.is_out(sim.now()) or self.net.is_down(self.port) or self.closed:
            sim.note(node.name, "fault", "request lost", name)
            raise Broken
        try:
            reply = await self.handle(name, args)
        except (Broken, asyncio.CancelledError):
            raise
        except HARNESS:
            raise
        except Exception as e:  # noqa: BLE001
            reply = e
        if fault == "kill_after":
            node.kill()
            await sim.never(node)
        if node.dead:
            await sim.never(node)
        if fault == "drop_reply":
            sim.note(node.name, "fault", "reply lost", name)
            raise Broken
        for r in reply if isinstance(reply, Many) else [reply]:
            self.send(r if isinstance(r, Raw) else encode(r, self.proto), self._lag())

    def login(self, a: list[bytes]) -> None:
        user, password = (a[0], a[1]) if len(a) > 1 else (b"default", a[0])
        account = self.net.daemon_account if self.daemon else self.net.account
        if account is None and user == b"default" and len(a) == 1:
            raise Err("ERR AUTH <password> called without any password configured for the default user.")
        if account is not None and (user, password) != account:
            raise Err("WRONGPASS invalid username-password pair or user is disabled.")
        self.user = user

    async def handle(self, name: str, args: list[bytes]) -> Any:
        a = args[1:]
        if name == "hello" and len(a) > 3 and a[1].upper() == b"AUTH":
            self.login(a[2:4])
        if name == "auth":
            self.login(a)
            return Status("OK")
        if self.user is None and (self.net.daemon_account if self.daemon else self.net.account) is not None:
            raise Err("NOAUTH Authentication required.")
        if name == "select":
            self.db = int(a[0])
            if self.net.mode == "cluster" and self.db:
                raise Err("ERR SELECT is not allowed in cluster mode")
        if name == "hello":
            self.proto = int(a[0]) if a else self.proto
            return {"server": "redis", "version": "7.4.0", "proto": self.proto, "id": 1, "mode": self.net.mode, "role": "master", "modules": []}
        if name in ("client", "select", "readonly"):
            if a and a[0].upper() == b"MAINT_NOTIFICATIONS":
                raise Err("unknown subcommand")
            return Status("OK")
        if name == "ping":
            if (self.channels or self.patterns) and self.proto == 2:
                return [b"pong", b""]
            return Status("PONG")
        if name == "sentinel":
            return self.net.sentinel(a)
        if self.daemon:
            raise Err(f"unknown command {name!r}")
        if name == "cluster":
            return self.net.cluster_slots()
        if name == "command":
            if a:
                return keys_of(a[1].decode().lower(), a[1:])
            return [[n, -2, [f], x, y, int(x > 0), []] for names, f, x, y in [
                (FIRST_KEY, b"write", 1, 1), (ALL_KEYS, b"write", 1, -1), (NO_KEYS, b"readonly", 0, 0),
                (["xgroup", "xinfo"], b"write", 2, 2), (["xread", "xreadgroup", "eval", "evalsha"], b"movablekeys", 0, 0)] for n in names]
        if name == "multi":
            self.multi = []
            return Status("OK")
        if name == "exec":
            queued, self.multi = self.multi or [], None
            out = []
            for n, q in queued:
                try:
                    out.append(await self.data(n, q))
                except Err as e:
                    out.append(e)
                except HARNESS:
                    raise
                except Exception as e:  # noqa: BLE001
                    out.append(e)
            return out
        if name == "discard":
            self.multi = None
            return Status("OK")
        if self.multi is not None:
            self.multi.append((name, args))
            self.net.route(self, name, args)
            return Status("QUEUED")
        if name in ("subscribe", "psubscribe", "unsubscribe", "punsubscribe"):
            return self.subscribe(name, a)
        return await self.data(name, args)

    def subscribe(self, name: str, names: list[bytes]) -> "Many":
        from .sim import _glob

        pat = name[0] == "p" or name[1] == "n" and name.startswith("pun")
        out = Many()
        todo = names or (list(self.patterns if pat else self.channels) if "unsub" in name else [])
        for n in todo:
            if "unsub" in name:
                self.patterns.pop(n, None) if pat else self.channels.discard(n)
            elif pat:
                self.patterns[n] = _glob(n)
            else:
                self.channels.add(n)
            out.append(self.push([name, n, len(self.channels) + len(self.patterns)]))
        if not todo:
            out.append(self.push([name, None, 0]))
        if (self.channels or self.patterns) and self not in self.net.server.subs:
            self.net.server.subs.append(self)
        return out

    def push(self, items: list) -> "Raw":
        raw = encode(items, self.proto)
        return Raw(b">" + raw[1:] if self.proto == 3 else raw)

    def _offer(self, ch: bytes, data: bytes) -> int:
        n = 0
        if self.node.dead:
            return 0
        if ch in self.channels:
            self.send(self.push([b"message", ch, data]), self._lag())
            n += 1
        for pat, rx in self.patterns.items():
            if rx.match(ch):
                self.send(self.push([b"pmessage", pat, ch, data]), self._lag())
                n += 1
        return n

    # -- data -----------------------------------------------------------------
    async def data(self, name: str, args: list[bytes]) -> Any:
        self.net.route(self, name, args)
        self.net.used.add((self.user, self.db))
        call = COMMANDS.get(name)
        if call is None:
            raise TypeError(f"the simulated server does not know {args!r}")
        self.sim.stats["wire"] = self.sim.stats.get("wire", 0) + 1
        r = call(self, args[1:])
        if asyncio.iscoroutine(r):
            r = await r
        return r


class Raw(bytes):
    pass


class Many(list):
    pass


# ----------------------------------------------------------------------------
# commands
# ----------------------------------------------------------------------------
def num(b: bytes) -> float | int:
    try:
        return int(b)
    except ValueError:
        return float(b)


def score(b: bytes) -> Any:
    s = b.decode()
    return s if s[:1] in "(" or "inf" in s else num(b)


def opts(a: list[bytes], flags: tuple[str, ...] = (), pairs: tuple[str, ...] = ()) -> tuple[dict, list[bytes]]:
    """Leading options of a command; the rest."""
    got: dict[str, Any] = {}
    i = 0
    while i < len(a):
        o = a[i].upper().decode("latin1")
        if o in flags:
            got[o] = True
            i += 1
        elif o in pairs:
            got[o] = a[i + 1]
            i += 2
        else:
            break
    return got, a[i:]


def q(c: Conn, name: str, *a: Any, **k: Any) -> Any:
    return c.net.server.execute(name, a, k)


def ok(_: Any) -> Status:
    return Status("OK")


def _set(c, a):
    o, rest = opts(a[2:], ("NX", "XX", "GET", "KEEPTTL"), ("EX", "PX"))
    kw = {k.lower(): (int(v) if isinstance(v, bytes) else v) for k, v in o.items()}
    r = q(c, "set", a[0], a[1], **kw)
    return r if "GET" in o else Status("OK") if r else None


def _entry(e):
    return [e[0], [x for kv in e[1].items() for x in kv] if e[1] is not None else None]


def _streams(c, r):
    if not r:
        return Nil
    rows = [(s, [_entry(e) for e in es]) for s, es in (r.items() if isinstance(r, dict) else r)]
    return dict(rows) if c.proto == 3 else [list(x) for x in rows]


async def _xread(c, a, group=None, consumer=None):
    o, rest = opts(a, ("NOACK",), ("COUNT", "BLOCK"))
    names = rest[1:]
    n = len(names) // 2
    streams = dict(zip(names[:n], [i.decode() for i in names[n:]]))
    kw: dict[str, Any] = {"count": int(o["COUNT"])} if "COUNT" in o else {}
    pos = (streams,) if group is None else (group, consumer, streams)
    cmd = "xread" if group is None else "xreadgroup"
    if "NOACK" in o:
        kw["noack"] = True
    if "BLOCK" not in o:
        return _streams(c, q(c, cmd, *pos, **kw))
    sim, srv, node = c.sim, c.net.server, c.node
    block = int(o["BLOCK"])
    if block and sim.unit > 1:
        block = max(block, 250 * sim.unit)
    deadline = None if block == 0 else sim.loop.time() + block / 1000
    for s, i in streams.items():
        if i == "$":
            streams[s] = srv.b._stream_last_id(s.decode()) or "0-0"
    before: Any = None
    while True:
        if node.dead:
            await sim.never(node)
        if node.is_out(sim.now()) or c.closed:
            raise Broken
        last = [srv.b._stream_last_id(s.decode()) for s in streams]
        if last != before:
            r = q(c, cmd, *pos, **kw)
            if r:
                return _streams(c, r)
            before = last
        if deadline is not None and sim.loop.time() >= deadline:
            return Nil
        fut = sim.loop.create_future()
        srv.waiters.append(fut)
        sim.track(fut)
        await sim.wait_fut(fut, None if deadline is None else deadline - sim.loop.time(), node)


def _xreadgroup(c, a):
    assert a[0].upper() == b"GROUP"
    return _xread(c, a[3:], a[1], a[2])


def _zadd(c, a):
    o, rest = opts(a[1:], ("NX", "XX", "GT", "LT", "CH", "INCR"))
    return q(c, "zadd", a[0], {m: num(s) for s, m in zip(rest[::2], rest[1::2])}, **{k.lower(): v for k, v in o.items()})


def _zrange(c, a):
    with_scores = any(x.upper() == b"WITHSCORES" for x in a[3:])
    if any(x.upper() == b"BYSCORE" for x in a[3:]):
        return _zrangebyscore(c, [a[0], a[1], a[2], *[x for x in a[3:] if x.upper() != b"BYSCORE"]])
    if any(x.upper() == b"REV" for x in a[3:]):
        raise TypeError(f"ZRANGE {a}")
    return _scored(c, q(c, "zrange", a[0], int(a[1]), int(a[2]), withscores=with_scores), with_scores)


def _scored(c, r, with_scores):
    if not with_scores:
        return list(r)
    if c.proto == 3:
        return [[m, float(s)] for m, s in r]
    return [x for m, s in r for x in (m, _num(s))]


def _zrangebyscore(c, a):
    kw: dict[str, Any] = {}
    i = 3
    with_scores = False
    while i < len(a):
        if a[i].upper() == b"WITHSCORES":
            with_scores, i = True, i + 1
        else:
            kw, i = {"start": int(a[i + 1]), "num": int(a[i + 2])}, i + 3
    return _scored(c, q(c, "zrangebyscore", a[0], score(a[1]), score(a[2]), withscores=with_scores, **kw), with_scores)


def _xpending(c, a):
    if len(a) == 2:
        r = q(c, "xpending", a[0], a[1])
        return [r["pending"], r["min"], r["max"], [[x["name"], b"%d" % x["pending"]] for x in r["consumers"] or []] or None]
    i, kw = 2, {}
    if a[2].upper() == b"IDLE":
        kw["idle"], i = int(a[3]), 4
    if len(a) > i + 3:
        kw["consumername"] = a[i + 3]
    rows = q(c, "xpending_range", a[0], a[1], min=a[i].decode(), max=a[i + 1].decode(), count=int(a[i + 2]), **kw)
    rows = [{k.decode() if isinstance(k, bytes) else k: v for k, v in r.items()} for r in rows]
    return [[r["message_id"], r["consumer"], r["time_since_delivered"], r["times_delivered"]] for r in rows]


def _xautoclaim(c, a):
    o, _ = opts(a[5:], ("JUSTID",), ("COUNT",))
    r = q(c, "xautoclaim", a[0], a[1], a[2], int(a[3]), start_id=a[4].decode(), count=int(o.get("COUNT", b"100")))
    return [r[0], [_entry(e) for e in r[1]], list(r[2]) if len(r) > 2 else []]


def _xclaim(c, a):
    ids, i = [], 4
    while i < len(a) and b"-" in a[i]:
        ids.append(a[i].decode())
        i += 1
    o, rest = opts(a[i:], ("JUSTID", "FORCE"), ("IDLE", "TIME", "RETRYCOUNT"))
    if rest:
        raise TypeError(f"XCLAIM {a}")
    kw: dict[str, Any] = {k.lower(): (int(v) if isinstance(v, bytes) else v) for k, v in o.items()}
    r = q(c, "xclaim", a[0], a[1], a[2], int(a[3]), ids, **kw)
    return list(r) if "JUSTID" in o else [_entry(e) for e in r]


def _xgroup(c, a):
    if a[0].upper() != b"CREATE":
        raise TypeError(f"XGROUP {a}")
    q(c, "xgroup_create", a[1], a[2], id=a[3].decode(), mkstream=any(x.upper() == b"MKSTREAM" for x in a[4:]))
    return Status("OK")


def _xtrim(c, a):
    approx = b"~" in a
    n = a[-1] if a[-2] in (b"~", b"=") or a[-2].upper() in (b"MAXLEN", b"MINID") else a[2]
    if a[1].upper() == b"MAXLEN":
        return q(c, "xtrim", a[0], maxlen=int(n), approximate=approx)
    return q(c, "xtrim", a[0], minid=n.decode(), approximate=approx)


def _xinfo(c, a):
    sub = a[0].upper()
    if sub == b"GROUPS":
        return [_hyphen(r) for r in q(c, "xinfo_groups", a[1])]
    if sub == b"CONSUMERS":
        return [_hyphen(r) for r in q(c, "xinfo_consumers", a[1], a[2])]
    return _hyphen(q(c, "xinfo_stream", a[1]))


def _hyphen(d):
    return {k: v for k, v in d.items()}


def _xadd(c, a):
    o, rest = opts(a[1:], ("NOMKSTREAM",), ())
    fields = rest[1:]
    return q(c, "xadd", a[0], dict(zip(fields[::2], fields[1::2])), id=rest[0].decode())


def _eval(c, a, kind):
    from .sim import HarnessError

    net = c.net
    keys = a[2:2 + int(a[1])]
    if net.mode == "cluster":
        net.seen_keys.clear()
    try:
        head = a[0].decode() if kind == "evalsha" else net.watched(a[0].decode())
        r = net.server.execute(kind, (head, int(a[1]), *a[2:]), {})
    except HarnessError:
        raise
    finally:
        if net.mode == "cluster":
            net.check_script(keys)
    return r


def _script(c, a):
    sub = a[0].upper()
    if sub == b"LOAD":
        import hashlib

        sha = hashlib.sha1(a[1]).hexdigest()
        if sha not in c.net.server.scripts:
            inner = q(c, "script_load", c.net.watched(a[1].decode()))
            c.net.server.scripts[sha] = c.net.server.scripts[inner]
        return sha
    if sub == b"EXISTS":
        return [int(s.decode() in c.net.server.scripts) for s in a[1:]]
    raise TypeError(f"SCRIPT {a}")


def _scan(c, a):
    o, _ = opts(a[1:], (), ("MATCH", "COUNT", "TYPE"))
    return [b"0", sorted(k for k in q(c, "keys", o.get("MATCH", b"*").decode()) if not k.startswith(b"\0v"))]


COMMANDS: dict[str, Any] = {
    "get": lambda c, a: q(c, "get", a[0]),
    "set": _set,
    "setex": lambda c, a: ok(q(c, "set", a[0], a[2], ex=int(a[1]))),
    "psetex": lambda c, a: ok(q(c, "set", a[0], a[2], px=int(a[1]))),
    "mget": lambda c, a: list(q(c, "mget", list(a))),
    "exists": lambda c, a: q(c, "exists", *a),
    "del": lambda c, a: q(c, "delete", *a),
    "unlink": lambda c, a: q(c, "delete", *a),
    "expire": lambda c, a: int(q(c, "expire", a[0], int(a[1]))),
    "ttl": lambda c, a: q(c, "ttl", a[0]),
    "keys": lambda c, a: _scan(c, [b"0", b"MATCH", a[0]])[1],
    "scan": _scan,
    "hget": lambda c, a: q(c, "hget", a[0], a[1]),
    "hgetall": lambda c, a: q(c, "hgetall", a[0]),
    "hset": lambda c, a: q(c, "hset", a[0], mapping=dict(zip(a[1::2], a[2::2]))),
    "hdel": lambda c, a: q(c, "hdel", a[0], *a[1:]),
    "hexists": lambda c, a: int(q(c, "hexists", a[0], a[1])),
    "hincrby": lambda c, a: q(c, "hincrby", a[0], a[1], int(a[2])),
    "hvals": lambda c, a: list(q(c, "hvals", a[0])),
    "sadd": lambda c, a: q(c, "sadd", a[0], *a[1:]),
    "srem": lambda c, a: q(c, "srem", a[0], *a[1:]),
    "smembers": lambda c, a: set(q(c, "smembers", a[0])),
    "sismember": lambda c, a: int(q(c, "sismember", a[0], a[1])),
    "zadd": _zadd,
    "zcard": lambda c, a: q(c, "zcard", a[0]),
    "zcount": lambda c, a: q(c, "zcount", a[0], score(a[1]), score(a[2])),
    "zscore": lambda c, a: q(c, "zscore", a[0], a[1]),
    "zrem": lambda c, a: q(c, "zrem", a[0], *a[1:]),
    "zrange": _zrange,
    "zrangebyscore": _zrangebyscore,
    "zremrangebyscore": lambda c, a: q(c, "zremrangebyscore", a[0], score(a[1]), score(a[2])),
    "xadd": _xadd,
    "xack": lambda c, a: q(c, "xack", a[0], a[1], *[x.decode() for x in a[2:]]),
    "xdel": lambda c, a: q(c, "xdel", a[0], *[x.decode() for x in a[1:]]),
    "xlen": lambda c, a: q(c, "xlen", a[0]),
    "xrange": lambda c, a: [_entry(e) for e in q(c, "xrange", a[0], a[1].decode(), a[2].decode(), **({"count": int(a[4])} if len(a) > 3 else {}))],
    "xread": _xread,
    "xreadgroup": _xreadgroup,
    "xpending": _xpending,
    "xautoclaim": _xautoclaim,
    "xclaim": _xclaim,
    "xgroup": _xgroup,
    "xinfo": _xinfo,
    "xtrim": _xtrim,
    "publish": lambda c, a: c.net.server.publish(a[0], a[1]),
    "eval": lambda c, a: _eval(c, a, "eval"),
    "evalsha": lambda c, a: _eval(c, a, "evalsha"),
    "script": _script,
    "info": lambda c, a: "# Server\r\nredis_version:7.4.0\r\n# Memory\r\nused_memory:1000\r\n",
}
ALL_KEYS = ["del", "unlink", "exists", "mget"]
NO_KEYS = ["publish", "script", "info", "keys", "scan", "ping", "multi", "exec", "discard", "select", "hello", "client", "cluster", "command"]
SPECIAL = ["xread", "xreadgroup", "eval", "evalsha", "xgroup", "xinfo"]
FIRST_KEY = [n for n in COMMANDS if n not in ALL_KEYS + NO_KEYS + SPECIAL]


def keys_of(name: str, args: list[bytes]) -> list[bytes]:
    if name in ALL_KEYS:
        return args[1:]
    if name in ("eval", "evalsha"):
        return args[3:3 + int(args[2])]
    if name in ("xgroup", "xinfo"):
        return args[2:3]
    if name in ("xread", "xreadgroup"):
        i = [x.upper() for x in args].index(b"STREAMS")
        rest = args[i + 1:]
        return rest[:len(rest) // 2]
    return args[1:2] if name in FIRST_KEY else []


SENTINEL_PORT = 26379
_WATCH = (
    "local __r0=redis; local redis=setmetatable({call=function(c,k,...) if k~=nil and string.upper(c)~='PUBLISH' then "
    "__r0.call('RPUSH','\\0vkeys',k) end; return __r0.call(c,k,...) end},{__index=__r0}); "
)


class Net:
    """The network of one deployment, and its servers."""

    def __init__(self, sim, mode: str):
        self.sim, self.mode, self.server = sim, mode, sim.server
        self.conns: set[Conn] = set()
        self.seen_keys: list[bytes] = []
        self.crossed: list[str] = []
        self.errors: list[str] = []
        self.master = "m1"
        self.ports = [7000, 7001, 7002]
        # who may come in, and how: (user, password), and whether the servers speak TLS, with whose certificate
        self.account: tuple[bytes, bytes] | None = None
        self.daemon_account: tuple[bytes, bytes] | None = None
        self.tls: str | None = None
        self.daemons: list[tuple[str, int]] | None = None
        self.used: set[tuple[bytes | None, int]] = set()
        self.called: set[tuple[str, int]] = set()
        self.away: set[str] = set()
        self.down_until = self.lost_until = self.clusterdown_until = -1.0

    def is_daemon(self, host, port) -> bool:
        return port == SENTINEL_PORT if self.daemons is None else (host, port) in self.daemons

    def shake_hands(self, context, daemon: bool) -> None:
        """The TLS handshake, if there is one."""
        if (context is not None) != (self.tls is not None):
            raise ConnectionResetError("simulated: one side speaks TLS, the other doesn't")
        if context is None or daemon:
            return
        if self.tls == "private" and context.verify_mode != ssl.CERT_NONE:
            raise ssl.SSLCertVerificationError("simulated: self-signed certificate")
        if self.tls == "other-name" and context.check_hostname:
            raise ssl.SSLCertVerificationError("simulated: hostname mismatch")

    async def open_unix(self, path=None, **kw):
        return await self.open(path, 0, **kw)

    async def open(self, host=None, port=None, **kw):
        from .sim import current_node

        node = current_node()
        if node is None:
            raise TypeError("a connection opened outside every node")
        await self.sim.latency(node)
        if node.dead:
            await self.sim.never(node)
        self.called.add((host, port))
        daemon = self.is_daemon(host, port)
        while self.sim.now() < self.lost_until and not daemon:
            await asyncio.sleep(1)  # packets go nowhere
        if node.is_out(self.sim.now()) or self.is_down(port) or host in self.away:
            raise ConnectionRefusedError("simulated: unreachable")
        if self.mode == "sentinel" and not daemon and host != self.master:
            raise ConnectionRefusedError(f"simulated: {host} is down")
        self.shake_hands(kw.get("ssl"), daemon)
        c = Conn(self, node, host, port, self.mode == "sentinel" and daemon)
        self.conns.add(c)
        return c.reader, c.writer

    # -- cluster --------------------------------------------------------------
    def owner(self, slot: int) -> int:
        return self.ports[min(slot * len(self.ports) // 16384, len(self.ports) - 1)]

    def cluster_slots(self) -> list:
        out, start = [], 0
        for s in range(1, 16385):
            if s == 16384 or self.owner(s) != self.owner(start):
                out.append([start, s - 1, [b"c1", self.owner(start), b"id%d" % self.owner(start), []]])
                start = s
        return out

    def route(self, conn: Conn, name: str, args: list[bytes]) -> None:
        if self.mode != "cluster":
            return
        if self.sim.now() < self.clusterdown_until:
            raise Err("CLUSTERDOWN The cluster is down")
        keys = keys_of(name, args)
        slots = {key_slot(k) for k in keys}
        if len(slots) > 1:
            self.crossed.append(f"{name.upper()} {keys}")
            raise Err("CROSSSLOT Keys in request don't hash to the same slot")
        for s in slots:
            if self.owner(s) != conn.port:
                raise Err(f"MOVED {s} c1:{self.owner(s)}")

    def watched(self, text: str) -> str:
        return _WATCH + text if self.mode == "cluster" else text

    def check_script(self, keys: list[bytes]) -> None:
        srv = self.server
        used = srv.q("lrange", b"\0vkeys", 0, -1)
        if used:
            srv.q("delete", b"\0vkeys")
        used = [k for k in used if not k.startswith(b"\0v")]
        slots = {key_slot(k) for k in [*keys, *used]}
        if len(slots) > 1:
            self.crossed.append(f"a script given {keys} used {sorted(set(used))}")

    # -- sentinel -------------------------------------------------------------
    def sentinel(self, a: list[bytes]) -> Any:
        sub = a[0].upper()
        if sub == b"MASTERS":
            return [{"name": "mymaster", "ip": self.master, "port": "6379", "flags": "master", "num-other-sentinels": "2", "num-slaves": "1", "quorum": "2"}]
        if sub == b"GET-MASTER-ADDR-BY-NAME":
            return [self.master, "6379"]
        raise TypeError(f"SENTINEL {a}")

    def is_down(self, port) -> bool:
        return self.sim.now() < self.down_until and port != SENTINEL_PORT

    def shake(self, what: str, length: float = 0.0) -> None:
        """Something happens to the deployment; whatever was stored stays stored."""
        if what != "reset":
            self.server.scripts.clear()
        if what == "flush":
            return
        if what == "failover":
            self.master = "m2" if self.master == "m1" else "m1"
        if what == "clusterdown":
            self.clusterdown_until = self.sim.now() + length
            return
        if what == "reshard":
            self.ports = self.ports[1:] + self.ports[:1]
            return
        if what == "vanish":
            self.lost_until = self.sim.now() + length
        elif what != "reset":
            self.down_until = self.sim.now() + length
        for c in list(self.conns):
            if c.port != SENTINEL_PORT:
                c.reset()
