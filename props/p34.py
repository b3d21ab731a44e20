"""P34: a docket goes where its URL says, as whom it says, and nowhere else."""
import asyncio as aio
from urllib.parse import quote, quote_plus

from hypothesis import strategies as st

from docket import Progress
from docket._redis import RedisConnection
from docket._redis_sentinel import parse_sentinel_url
from docket.dependencies import ConcurrencyLimit
from docket.execution import ExecutionProgress, ExecutionState
from vlib.engine import Part, Seen
from vlib.gens import seeds
from vlib.lab import *

LETTERS = "aZ9-._~!$&'()*+,;=:@/?#[]%é ✓\"\\{}|^`<>"
secrets = st.text(st.sampled_from(LETTERS), min_size=1, max_size=8)
hosts = st.sampled_from(["r1", "10.0.0.7", "redis.example", "::1", "fe80::7"])
SAFE = ["", "!$&'()*+,;=", "~-._", "!*", "*+'"]


@st.composite
def places(draw):
    """A deployment, and who may come in."""
    kind = draw(st.sampled_from(["redis", "redis", "cluster", "cluster", "sentinel", "sentinel", "unix"]))
    tls = draw(st.sampled_from([None, None, "public", "private", "other-name"])) if kind != "unix" else None
    account = draw(st.one_of(st.none(), st.tuples(st.one_of(st.just("default"), secrets), secrets)))
    p = {"kind": kind, "tls": tls, "account": account and list(account), "db": 0 if kind == "cluster" else draw(st.sampled_from([0, 0, 1, 3, 15])),
         "host": draw(hosts), "port": draw(st.sampled_from([6379, 6379, 6380, 17001]))}
    if kind == "sentinel":
        n = draw(st.integers(1, 3))
        p["daemons"] = [[draw(st.sampled_from(["s", "10.0.1.", "fe80::"])) + str(i + 1), draw(st.sampled_from([26379, 26379, 26380, 6379]))] for i in range(n)]
        p["away"] = draw(st.lists(st.integers(0, n - 1), max_size=n - 1, unique=True))
        p["daemon_account"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.one_of(st.just("default"), secrets), secrets).map(list)))
    return p


# how the same place is written down
ways = st.fixed_dictionaries({
    "safe": st.sampled_from(SAFE), "port": st.booleans(), "db": st.sampled_from(["path", "path", "slash", "query"]),
    "default": st.booleans(), "plus": st.booleans(), "last": st.booleans(),
    "options": st.lists(st.sampled_from(["protocol=2", "protocol=3", "client_name=me", "health_check_interval=30", "max_connections=100",
                                         "socket_connect_timeout=5", "socket_timeout=300"]), max_size=3, unique_by=lambda o: o.split("=")[0])})


def write(p: dict, way: dict) -> str:
    def addr(host, port, usual):
        return (f"[{host}]" if ":" in host else host) + (f":{port}" if way["port"] or port != usual else "")

    who = ""
    if p["account"]:
        user, password = p["account"]
        name = "" if user == "default" and not way["default"] else quote(user, safe=way["safe"])
        who = f"{name}:{quote(password, safe=way['safe'])}@"
    options = list(way["options"])
    if p["tls"] == "private":
        options.append("ssl_cert_reqs=none")
    if p["tls"] in ("other-name", "private"):
        options.append("ssl_check_hostname=false")
    s = "s" if p["tls"] else ""
    db = p["db"]
    if p["kind"] == "sentinel":
        scheme, place = f"redis{s}+sentinel", ",".join(addr(h, port, 26379) for h, port in p["daemons"])
        path = "/mymaster" + (f"/{db}" if db or way["db"] == "path" else "") + ("/" if way["db"] == "slash" else "")
        if p["daemon_account"]:
            q = quote_plus if way["plus"] else lambda x: quote(x, safe="")
            user, password = p["daemon_account"]
            if user != "default" or way["default"]:
                options.append("sentinel_username=" + q(user))
            options.append("sentinel_password=" + q(password))
    elif p["kind"] == "unix":
        scheme, place, path = "unix", "", "/run/redis.sock"
        options.append(f"db={db}")
    else:
        scheme = f"redis{s}" + ("+cluster" if p["kind"] == "cluster" else "")
        place = addr(p["host"], p["port"], 6379 if p["kind"] == "redis" else None)
        path = f"/{db}" if way["db"] == "path" or db and way["db"] == "slash" else "/" if way["db"] == "slash" else ""
        if db and way["db"] == "query":
            options.append(f"db={db}")
    if way["last"]:
        options.reverse()
    return f"{scheme}://{who}{place}{path}" + ("?" + "&".join(options) if options else "")


@st.composite
def journeys(draw, tier):
    p = draw(places())
    return {"seed": draw(seeds), "wire": {"unix": "redis"}.get(p["kind"], p["kind"]), "lat": draw(st.sampled_from(["zero", "lan"])),
            "place": p, "ways": [draw(ways) for _ in range(3)], "failover": draw(st.booleans())}


def run_journey(case: dict, seen: Seen) -> None:
    p = case["place"]
    urls = [write(p, w) for w in case["ways"]]

    async def main(sim):
        net = sim.net
        b = lambda who: who and (who[0].encode(), who[1].encode())
        net.account, net.tls = b(p["account"]), p["tls"]
        if p["kind"] == "sentinel":
            net.daemon_account, net.daemons = b(p["daemon_account"]), [tuple(d) for d in p["daemons"]]
            net.away = {p["daemons"][i][0] for i in p["away"]}
            may = {*net.daemons, ("m1", 6379), ("m2", 6379)}
        elif p["kind"] == "unix":
            may = {("/run/redis.sock", 0)}
        else:
            may = {(p["host"], p["port"]), *([("c1", n) for n in net.ports] if p["kind"] == "cluster" else [])}
        lab = Lab(sim, url=urls[0])

        async def work(n: int, progress: ExecutionProgress = Progress()) -> int:
            await progress.increment(n)
            return n * 2

        async def limited(n: int, key: str = "a", limit: ConcurrencyLimit = ConcurrencyLimit("key", max_concurrent=1)) -> int:
            return n + 1

        async def long():
            lab.rec("start")
            try:
                await asyncio.sleep(1000)
            except asyncio.CancelledError:
                lab.rec("interrupted")
                raise

        lab.tasks = [work, limited, long]
        w = lab.start_worker("w", docket_kw={"url": urls[1]}, reconnection_delay=S(1))
        async with lab.docket() as d, lab.docket(url=urls[2]) as other:
            ex = await d.add(work, key="k1")(21)
            later = await other.add(limited, utcnow() + S(1), key="k2")(4)
            need(await other.get_execution("k1") is not None, "a docket of the same place does not know the task", "apart")
            handle = await other.get_execution("k1")
            for handle, value in ((ex, 42), (handle, 42), (later, 5)):
                try:
                    got = await handle.get_result(timeout=S(30))
                except TimeoutError:
                    got = f"nothing, the workers ended with {lab.worker_ends}"
                need(got == value, f"the result of {handle.key} is {got}", "result")
            if case["failover"] and p["kind"] == "sentinel":
                net.shake("failover", 1.0)
                await asyncio.sleep(5)
                seen.hit("failover")
            run = await d.add(long, key="k3")()
            ok = await lab.quiesce(lambda: lab.of("start"), limit=20)
            need(ok, "a task never started", "start")
            need("w" in [x.name for x in await other.workers()], "the worker is unknown", "workers")
            watcher = asyncio.ensure_future(aio.wait_for(follow(await other.get_execution("k3")), 30))
            await asyncio.sleep(1)
            await other.cancel("k3")
            ok = await lab.quiesce(lambda: lab.of("interrupted"), limit=20)
            need(ok, "a running task never heard of its cancellation", "deaf")
            try:
                last = await watcher
            except TimeoutError:
                need(False, "a subscriber never heard of the end of a task", "watch")
            need(last == "cancelled", f"a subscriber heard {last}", "watch")
            await d.strike("work", "n", "==", 3)
            await asyncio.sleep(2)
            need(other.strike_list.is_stricken({"n": 3}) is False, "struck too much", "strikes")
            gone = await other.add(work, key="k4")(3)
            need(gone.disposition.value == "struck", "a strike never arrived", "strikes")
            await close_all(w)
        user = p["account"] and p["account"][0].encode()
        need(net.used == {(user, p["db"])}, f"worked as, and in, {net.used}, rather than as {user} in {p['db']}", "elsewhere")
        need(net.called <= may, f"called {net.called - may}", "called")
        seen.hit(p["kind"])
        seen.hit(f"tls-{p['tls']}" if p["tls"] else "plain")
        seen.hit("account" if user else "anyone")
        seen.nontrivial = bool(user or p["db"] or p["tls"])

    try:
        simulate(case, main)
    except Violation as e:
        raise Violation(f"{urls}: {e}", e.signature) from None
    except Exception as e:
        raise Violation(f"{urls}: {type(e).__name__}: {e}", "failed") from e


async def follow(ex):
    async for event in ex.subscribe():
        if event["type"] == "state" and event["state"] in (ExecutionState.COMPLETED, ExecutionState.FAILED, ExecutionState.CANCELLED):
            return event["state"].value


# -- how a Sentinel URL reads ---------------------------------------------------
@st.composite
def grammars(draw, tier):
    p = draw(places().filter(lambda p: p["kind"] == "sentinel"))
    return {"place": p, "way": draw(ways), "spoil": draw(st.sampled_from([None, None, None, "no-service", "no-host", "port", "db", "option", "empty-member"]))}


VALUES = {"protocol": int, "client_name": str, "health_check_interval": int, "max_connections": int, "socket_connect_timeout": float, "socket_timeout": float}


def run_grammar(case: dict, seen: Seen) -> None:
    p, way, spoil = case["place"], case["way"], case["spoil"]
    url = write(p, way)
    place, _, rest = url.partition("://")[2].partition("/")
    scheme, who = url.partition("://")[0], place.rpartition("@")[0] + "@" if "@" in place else ""
    place = place.rpartition("@")[2]
    if spoil:
        q = "?" + rest.partition("?")[2] if "?" in rest else ""
        url = {
            "no-service": f"{scheme}://{who}{place}{q}", "no-host": f"{scheme}://{who}/{rest}", "port": f"{scheme}://{who}{place},s9:x/{rest}",
            "db": f"{scheme}://{who}{place}/mymaster/x{q}", "option": url + ("&" if q else "?") + "max_connections=many",
            "empty-member": f"{scheme}://{who}{place},,/{rest}"}[spoil]
        seen.hit(spoil)
    if spoil and spoil != "empty-member":
        try:
            got = parse_sentinel_url(url)
        except ValueError as e:
            need(not p["account"] or len(p["account"][1]) < 4 or p["account"][1] not in str(e), f"{url}: the password is in the error", "leak")
            seen.nontrivial = True
            return
        need(spoil == "option" and "max_connections=" in write(p, way), f"{url} was understood as {got}", "accepted")
        return
    got = parse_sentinel_url(url)
    options = {n: VALUES[n](v) for n, v in (o.split("=") for o in way["options"])}
    if p["tls"] == "private":
        options["ssl_cert_reqs"] = "none"
    if p["tls"] in ("private", "other-name"):
        options["ssl_check_hostname"] = False
    tls = {"ssl": True} if p["tls"] else {}
    who = lambda a: {"username": a[0], "password": a[1]} if a else {}
    drop = lambda k: {n: v for n, v in k.items() if (n, v) != ("username", "default")}
    need(got.sentinels == [tuple(d) for d in p["daemons"]], f"{url}: Sentinels {got.sentinels}", "sentinels")
    need((got.service_name, got.db) == ("mymaster", p["db"]), f"{url}: {got}", "service")
    need(drop(got.connection_kwargs) == drop({**options, **who(p["account"]), **tls}), f"{url}: master {got.connection_kwargs}", "master")
    need(drop(got.sentinel_kwargs) == drop({**who(p["daemon_account"]), **tls}), f"{url}: Sentinels {got.sentinel_kwargs}", "daemons")
    seen.nontrivial = bool(p["account"] or p["daemon_account"] or options)


# -- servers in memory -----------------------------------------------------------
@st.composite
def rooms(draw, tier):
    names = draw(st.lists(st.sampled_from(["memory://", "memory://a", "memory://b", "memory://a?x=1", "memory:///1"]), min_size=1, max_size=3, unique=True))
    op = st.fixed_dictionaries({"op": st.sampled_from(["open", "close", "write", "write", "read", "read", "publish"]),
                                "url": st.sampled_from(names), "key": st.sampled_from(["k", "l"]), "n": st.integers(0, 3)})
    return {"loops": draw(st.lists(st.lists(op, min_size=1, max_size=12), min_size=1, max_size=3))}


def run_rooms(case: dict, seen: Seen) -> None:
    for loop in case["loops"]:
        async def main():
            world: dict[str, dict[str, bytes]] = {}
            there: dict[str, list[RedisConnection]] = {}
            for o in loop:
                url = o["url"]
                conns = there.setdefault(url, [])
                if o["op"] == "open" or not conns:
                    conns.append(await RedisConnection(url).__aenter__())
                elif o["op"] == "close":
                    c = conns.pop(o["n"] % len(conns))
                    await c.__aexit__(None, None, None)
                    need(not c.is_connected, "still connected", "closed")
                    continue
                c = conns[o["n"] % len(conns)]
                if o["op"] == "publish":
                    other = conns[-1]
                    async with other.pubsub() as ps:
                        await ps.subscribe(o["key"])
                        await c.publish(o["key"], "hello")
                        for _ in range(50):
                            m = await ps.get_message(ignore_subscribe_messages=True, timeout=0.1)
                            if m:
                                break
                        need(m is not None and m["data"] == b"hello", f"{url}: heard {m}", "publish")
                    continue
                async with c.client() as r:
                    if o["op"] == "write":
                        await r.set(o["key"], f"{url}{o['n']}")
                        world.setdefault(url, {})[o["key"]] = f"{url}{o['n']}".encode()
                    got = await r.get(o["key"])
                want = world.get(url, {}).get(o["key"])
                need(got == want, f"{url} {o['key']}: {got}, not {want}", "rooms")
                seen.hit("known" if want else "unknown")
                if len(world) > 1 or len(case["loops"]) > 1:
                    seen.nontrivial = True
            for conns in there.values():
                for c in conns:
                    await c.__aexit__(None, None, None)
        aio.run(main())


PARTS = [
    Part("journeys", lambda tier: journeys(tier), run_journey, quick=250, thorough=4000,
         rule="the place has an account, a database or TLS"),
    Part("grammar", grammars, run_grammar, quick=600, thorough=20000, rule="the URL has an account or options, or is malformed"),
    Part("rooms", rooms, run_rooms, quick=200, thorough=3000, rule="several URLs or event loops were used"),
]
