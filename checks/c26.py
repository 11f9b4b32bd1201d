"""C26: url, host and port helpers against an independent reference."""
import string

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C26"
RULE = ("cases: structured endpoints (protocol in any case, host labels, wildcards, ips, ports) and damaged ones (parts dropped, doubled, "
        "characters inserted), nested url containers, machines with generated names/addresses for disambiguation, and port pools given as "
        "lists or range strings and drawn in any order. Non-trivial: a tcp endpoint, a wildcard host, or a pool with at least two entries")
ASSUMPTIONS = ["ports are plain decimal integers; signs, blanks, unicode digits and trailing newlines in an endpoint are not generated",
               "IPv6 endpoints are outside the supported grammar",
               "the names and addresses of the machine are replaced by generated ones (localhost, public_ips, gethostname, name lookup)"]
SHARDS = 4
QUICK_S = 12
THOROUGH_S = 150

WORD = string.ascii_letters + string.digits + "_"


def strategies():
    from hypothesis import strategies as st

    word = st.sampled_from("abzABZ019_")
    inner = st.text(st.sampled_from("ab9_-Z-"), max_size=5)
    label = st.one_of(
        word,
        st.builds(lambda a, i, b: a + i + b, word, inner, word),
        st.integers(59, 66).map(lambda n: "a" + "b" * (n - 2) + "c"),
        st.builds(lambda a, b: a + b, inner, inner),   # may be empty or have a '-' at an end
    )
    ip = st.lists(st.integers(0, 300).map(str), min_size=4, max_size=4).map(".".join)
    host = st.one_of(st.just("*"), st.just("0.0.0.0"), st.just("127.0.0.1"), ip, st.lists(label, min_size=1, max_size=4).map(".".join),
                     st.sampled_from(["", "**", "*.a", "a..b", ".a", "a.", "a b", "a/b", "a@b"]))
    port = st.one_of(st.integers(0, 70000).map(str), st.sampled_from(["", "a", "80a", "*", "1.5", "0x10"]))
    proto = st.sampled_from(["tcp", "tcp", "tcp", "TCP", "Tcp", "ipc", "IPC", "inproc", "pgm", "epgm", "EPGM", "udp", "http", "", "tcpx", "ws"])
    sep = st.sampled_from(["://"] * 8 + [":/", "//", ":", "://://", ""])
    colon = st.sampled_from([":"] * 8 + ["", "::", ":1:"])
    return proto, sep, host, colon, port, label


def s_url():
    from hypothesis import strategies as st
    proto, sep, host, colon, port, label = strategies()
    url = st.tuples(proto, sep, host, colon, port).map("".join)
    path = st.tuples(st.sampled_from(["ipc", "inproc", "tcp"]), st.just("://"), st.sampled_from(["/tmp/x", "a-1", "sock:12", "a:b:c", ""])).map("".join)
    return st.one_of(url, path, st.sampled_from([None, 5, b"tcp://127.0.0.1:80", ["tcp://127.0.0.1:1"]]), st.text(st.sampled_from("tcp:/*.1a-"), max_size=16))


def ref_valid(url):
    """True, or the exception type"""
    if not isinstance(url, str):
        return TypeError
    parts = url.split("://")
    if len(parts) != 2 or parts[0].lower() not in ("tcp", "pgm", "epgm", "ipc", "inproc"):
        return AssertionError
    if parts[0].lower() != "tcp":
        return True
    if parts[1].count(":") != 1:
        return AssertionError
    host, port = parts[1].split(":")
    if not port or any(c not in string.digits for c in port):
        return AssertionError
    if host == "*":
        return True
    for label in host.split("."):
        if not 1 <= len(label) <= 63:
            return AssertionError
        if any(c not in WORD + "-" for c in label) or label[0] == "-" or label[-1] == "-":
            return AssertionError
    return True


def outcome(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return type(e)


def run_url(url, ctx):
    from ipyparallel import util

    ref = ref_valid(url)
    ctx.tag("valid" if ref is True else ref.__name__)
    ctx.nontrivial(isinstance(url, str) and url.lower().startswith("tcp://") and len(url) > 8)
    same(outcome(util.validate_url, url), ref, "validate_url(%r)" % (url,))
    if not isinstance(url, str):
        return
    # is_url: a known protocol in front of '://'
    proto = url.split("://")[0]
    same(util.is_url(url), "://" in url and proto.lower() in ("tcp", "pgm", "epgm", "ipc", "inproc"), "is_url(%r)" % url)
    parts = url.split("://")
    splittable = len(parts) == 2 and parts[1].count(":") == 1
    got = outcome(util.split_url, url)
    if splittable:
        check(isinstance(got, tuple) and len(got) == 3 and all(isinstance(x, str) for x in got), "split_url(%r) gave %r", url, got)
        same("%s://%s:%s" % got, url, "joining split_url(%r)" % url)
        same(got[0], parts[0], "protocol")
        same(got[2], parts[1].split(":")[1], "port")
    else:
        same(got, AssertionError, "split_url(%r)" % url)
        same(util.disambiguate_url(url), url, "disambiguate_url of an endpoint without host and port")


# ---------------------------------------------------------------- containers
def s_container():
    from hypothesis import strategies as st
    proto, sep, host, colon, port, label = strategies()
    good = st.sampled_from(["tcp://127.0.0.1:80", "tcp://*:1", "ipc://x", "tcp://a.b-c:123", "inproc://a"])
    bad = st.tuples(proto, sep, host, colon, port).map("".join)
    leaf = st.one_of(good, good, good, good, bad)
    return st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=3), st.lists(s, max_size=3).map(tuple),
                                                  st.dictionaries(st.sampled_from("abc"), s, max_size=3)), max_leaves=8)


def leaves(c):
    if isinstance(c, str):
        return [c]
    if isinstance(c, dict):
        c = c.values()
    return [x for e in c for x in leaves(e)]


def run_container(c, ctx):
    from ipyparallel import util

    ls = leaves(c)
    refs = [ref_valid(x) for x in ls]
    bad = [r for r in refs if r is not True]
    ctx.nontrivial(len(ls) > 1)
    ctx.tag("bad" if bad else "good")
    got = outcome(util.validate_url_container, c)
    if bad:
        same(got, AssertionError, "validate_url_container(%r)" % (c,))
    else:
        check(got in (None, True), "validate_url_container(%r) gave %r", c, got)


# ---------------------------------------------------------------- disambiguation
def s_disamb():
    from hypothesis import strategies as st
    ips = ["10.0.0.1", "10.0.0.2", "192.168.1.7", "127.0.0.1", "172.16.0.9"]
    return st.fixed_dictionaries(dict(
        proto=st.sampled_from(["tcp", "tcp", "ipc", "TCP", "epgm"]),
        ip=st.sampled_from(["*", "0.0.0.0", "*", "0.0.0.0", "10.0.0.1", "127.0.0.1", "here", "192.168.1.7", "0.0.0.1", "10.0.0.0", "*.a", "", "localhost"]),
        port=st.integers(1, 65535),
        location=st.sampled_from([None, "", "here", "here.local", "there", "unknown", "1host"] + ips),
        public=st.lists(st.sampled_from(ips), max_size=3, unique=True),
        hostname=st.sampled_from(["here", "here.local", "h", "there"]),
        table=st.fixed_dictionaries({k: st.one_of(st.none(), st.sampled_from(ips)) for k in ("here", "here.local", "there")}),
        local=st.sampled_from(["127.0.0.1", "127.0.0.2"]),
        plain=st.sampled_from(["ipc:///tmp/a", "inproc://x", "tcp://x", "notaurl", "ipc://run-1/x", "tcp://a:1:2"]),
    ))


def run_disamb(c, ctx):
    import socket
    import warnings
    from unittest import mock
    from ipyparallel import util

    def lookup(host):
        ip = c["table"].get(host)
        if ip is None:
            raise socket.gaierror("no such host")
        return (host, [], [ip])

    resolve = {h: ip for h, ip in c["table"].items() if ip}
    util.ip_for_host.cache_clear() if hasattr(util.ip_for_host, "cache_clear") else None
    loc = c["location"]
    if c["ip"] not in ("*", "0.0.0.0"):
        exp = c["ip"]
    elif not loc or loc == c["hostname"]:
        exp = c["local"]
    else:
        addr = loc if loc.replace(".", "").isdigit() else resolve.get(loc, loc)
        exp = c["local"] if addr in c["public"] else addr
        ctx.tag("elsewhere" if exp == addr else "here")
    ctx.nontrivial(c["ip"] in ("*", "0.0.0.0") and bool(loc))
    with warnings.catch_warnings(), mock.patch.object(util, "localhost", lambda: c["local"]), \
            mock.patch.object(util, "public_ips", lambda: list(c["public"])), \
            mock.patch.object(util, "is_public_ip", lambda ip: ip in c["public"]), \
            mock.patch.object(socket, "gethostname", lambda: c["hostname"]), \
            mock.patch.object(socket, "gethostbyname_ex", lookup):
        warnings.simplefilter("ignore")
        same(util.disambiguate_ip_address(c["ip"], loc), exp, "disambiguate_ip_address(%r, %r)" % (c["ip"], loc))
        url = "%s://%s:%i" % (c["proto"], c["ip"], c["port"])
        same(util.disambiguate_url(url, loc), "%s://%s:%i" % (c["proto"], exp, c["port"]), "disambiguate_url(%r, %r)" % (url, loc))
        again = util.disambiguate_url(url, loc)
        same(util.disambiguate_url(again, "elsewhere"), again, "disambiguating again")
        same(util.disambiguate_url(c["plain"], loc), c["plain"], "disambiguate_url of an endpoint without host and port")
        if not loc:
            same(util.disambiguate_ip_address(c["ip"]), exp, "disambiguate_ip_address without location")
    if hasattr(util.ip_for_host, "cache_clear"):
        util.ip_for_host.cache_clear()


def s_ip():
    from hypothesis import strategies as st
    n = st.integers(0, 255).map(str)
    return st.one_of(
        st.tuples(st.just(True), st.lists(n, min_size=4, max_size=4).map(".".join)),
        st.tuples(st.just(False), st.one_of(
            st.lists(n, min_size=1, max_size=6).filter(lambda l: len(l) != 4).map(".".join),
            st.sampled_from(["localhost", "a.b.c.d", "1.2.3.4.example.org", "host-1.2.3.4", "1.2.3.a", "a1.2.3.4", "", "1a2a3a4", "10x0y0z1", "1..2.3", "*"]))))


def run_ip(case, ctx):
    from ipyparallel import util

    exp, s = case
    ctx.nontrivial(True)
    ctx.tag(exp)
    same(bool(util.is_ip(s)), exp, "is_ip(%r)" % s)


# ---------------------------------------------------------------- ports
def s_ports():
    from hypothesis import strategies as st
    p = st.one_of(st.integers(1, 40), st.integers(60000, 65535), st.sampled_from([1, 2, 65535]))
    rng = st.tuples(p, st.integers(-2, 12)).map(lambda t: (t[0], min(max(t[0] + t[1], 1), 65535)))
    part = st.one_of(p.map(lambda x: (x,)), rng)
    return st.tuples(st.lists(part, min_size=1, max_size=6), st.sampled_from(["str", "str", "list", "cli", "cfg"]),
                     st.one_of(st.none(), st.none(), st.sampled_from([0, -1, 65537, 100000, "80", 1.5, None])),
                     st.sampled_from(["ports", "engine_ports", "client_ports"]))


def run_ports(case, ctx):
    from ipyparallel.traitlets import PortList
    from traitlets import HasTraits, TraitError
    from ipyparallel.controller.app import IPController

    parts, form, wrong, trait = case
    exp, text = [], []
    for part in parts:
        if len(part) == 1:
            exp.append(part[0])
            text.append(str(part[0]))
        else:
            exp.extend(range(part[0], part[1] + 1))
            text.append("%i-%i" % part)
    s = ",".join(text)
    ctx.nontrivial(len(exp) > 1)
    ctx.tag(form)

    class T(HasTraits):
        pool = PortList()

    same(PortList.parse_port_range(s), exp, "parse_port_range(%r)" % s)
    if form == "str":
        same(list(T(pool=s).pool), exp, "a pool given as %r" % s)
    elif form == "list":
        same(list(T(pool=list(exp)).pool), exp, "a pool given as a list")
    elif form == "cli":
        same(list(PortList().from_string_list(text)), exp, "from_string_list(%r)" % text)
    else:
        from traitlets.config import Config
        cfg = Config()
        cfg.IPController[trait] = s
        app = IPController(config=cfg)
        same(list(getattr(app, trait)), exp, "IPController.%s = %r" % (trait, s))
    if wrong is not None or form == "list":
        bad = list(exp) + [wrong]
        t = T()
        before = list(t.pool)
        try:
            t.pool = bad
        except TraitError:
            pass
        else:
            raise Violation("a pool with %r was accepted: %r" % (wrong, t.pool))
        same(list(t.pool), before, "a refused pool")
        if isinstance(wrong, int) and wrong >= 0:
            try:
                t.pool = s + "," + str(wrong)
            except TraitError:
                pass
            else:
                raise Violation("a pool with %r was accepted: %r" % (wrong, t.pool))


def s_draw():
    from hypothesis import strategies as st
    pool = st.one_of(st.just([]), st.lists(st.integers(10000, 10011), max_size=6), st.lists(st.integers(10000, 10030), max_size=4, unique=True))
    return st.tuples(pool, pool, pool, st.lists(st.sampled_from(["engine", "client", "common", "default"]), min_size=1, max_size=16))


def run_draw(case, ctx):
    from unittest import mock
    from ipyparallel.controller.app import IPController

    ports, eports, cports, draws = case
    app = IPController(ports=list(ports), engine_ports=list(eports), client_ports=list(cports))
    app.log.setLevel(100)
    pools = {"engine": list(eports), "client": list(cports), "common": list(ports)}
    ctx.nontrivial(len(draws) > 1 and len(ports) + len(eports) + len(cports) > 1)
    fresh = iter(range(40000, 50000))
    got = []
    with mock.patch("ipyparallel.util.select_random_ports", lambda n: [next(fresh) for _ in range(n)]):
        for name in draws:
            port = app.next_port() if name == "default" else app.next_port(name)
            check(port not in got, "port %r drawn twice: %r then from %s", port, got, name)
            # the first unused port of the pool itself, then of the common one, then a random one
            order = pools["common"] if name in ("common", "default") else pools[name] + pools["common"]
            left = [p for p in order if p not in got]
            if left:
                same(port, left[0], "port from the %s pool (%r) after %r" % (name, order, got))
            else:
                ctx.tag("exhausted")
                check(port >= 40000, "port %r from exhausted %s pool", port, name)
            got.append(port)


SUBS = [
    Sub("url", s_url, run_url, quick=12000, thorough=300000, weight=2),
    Sub("container", s_container, run_container, quick=2500, thorough=50000, weight=1),
    Sub("disambiguate", s_disamb, run_disamb, quick=5000, thorough=100000, weight=1.5),
    Sub("is_ip", s_ip, run_ip, quick=1500, thorough=20000, weight=0.5),
    Sub("ports", s_ports, run_ports, quick=1500, thorough=40000, weight=1),
    Sub("draw", s_draw, run_draw, quick=1500, thorough=40000, weight=1),
]
