"""C16: broadcasts through the scheduler tree, wired as IPController wires it."""
import zmq

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C16"
RULE = ("cases: histories of concurrent broadcasts (depth 0-3, any subset of up to 20 engines with any ids, apply or execute, coalescing or not, several clients, "
        "buffers of any content) and of replies in any order, some of them errors, of any shape. Non-trivial: a broadcast of at least two targets was "
        "answered completely in an order other than the targets', or with an error")
ASSUMPTIONS = ["the sockets between schedulers are in-memory ROUTERs, lossless and in order", "target lists don't repeat an engine"]
SHARDS = 6
QUICK_S = 20
THOROUGH_S = 300


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import oplist, weighted

    ids = st.one_of(st.integers(1, 9).map(lambda n: list(range(n))), st.lists(st.integers(0, 40), min_size=1, max_size=12, unique=True))
    buf = st.one_of(st.binary(max_size=6), st.sampled_from([b"", b"<IDS|MSG>", b"\x00" * 3000]))
    subset = st.one_of(st.just("all"), st.integers(0, 2**12 - 1), st.just("reversed"))
    send = st.tuples(st.just("send"), st.integers(0, 1), st.sampled_from(["apply", "apply", "execute"]), subset,
                     st.booleans(), st.lists(buf, max_size=3))
    result = st.lists(buf, min_size=1, max_size=3)
    reply = st.tuples(st.just("reply"), st.integers(0, 30), weighted((4, st.just("ok")), (1, st.just("error"))), result)
    bad = st.tuples(st.just("all"), st.sampled_from(["ok", "ok", "error"]), st.integers(0, 30), result)
    step = st.tuples(st.just("hops"), st.integers(1, 6))
    ops = st.lists(weighted((3, send), (6, reply), (1, bad), (2, step)), min_size=1, max_size=30)
    return st.tuples(st.sampled_from([0, 1, 1, 2, 2, 3]), st.booleans(), ids, ops)


class Cast:
    pass


def run(case, ctx):
    from vlib.fakes import make_session
    from vlib.treesim import KEY, Tree

    depth, threads, ids, ops = case
    tree = Tree(depth, threads, ids=ids)
    clients = [make_session(KEY, "client-%i" % i) for i in range(2)]
    idents = [b"client-%i" % i for i in range(2)]
    for i in idents:
        tree.add_client(i)
    casts = {}
    got = []
    tree.on_client = got.append
    ctx.tag("depth%i" % depth, "threads" if threads else "processes")

    def fix(frames):
        """a message as it arrives at a client"""
        check(frames[0] in idents, "a reply for %r", frames[0])
        k = idents.index(frames[0])
        i = frames.index(b"<IDS|MSG>")
        same(i, 1, "idents of a reply")
        try:
            return k, clients[k].deserialize(frames[i + 1:], content=True)
        except Exception as e:
            raise Violation("client got an invalid message: %r" % e)

    def observe():
        # what engines were sent
        check(not tree.lost, "sent to someone who isn't there: %r", tree.lost[:1])
        for e in tree.engines.values():
            while e.inbox:
                ids_, m = e.inbox.pop(0)
                orig = m["metadata"].get("original_msg_id")
                c = casts.get(orig)
                check(c is not None, "engine %i got a message of no broadcast: %r", e.id, m["header"])
                check(e.id in c.targets, "engine %i is not a target of %s (%r)", e.id, orig, c.targets)
                check(e.id not in c.delivered, "engine %i got %s twice", e.id, orig)
                hdr = dict(m["header"])
                same(hdr.pop("msg_id"), orig + "_" + e.uuid, "msg_id at the engine")
                want = dict(c.msg["header"])
                want.pop("msg_id")
                for d in (hdr, want):
                    d["date"] = str(d["date"])[:19].replace("T", " ")
                same(hdr, want, "header at engine %i" % e.id)
                same(m["content"], c.msg["content"], "content at engine %i" % e.id)
                same([bytes(b) for b in m["buffers"]], c.buffers, "buffers at engine %i" % e.id)
                same(m["metadata"].get("label"), "L", "metadata at engine %i" % e.id)
                check(ids_ and ids_[-1] == idents[c.client], "idents at engine: %r", ids_)
                c.delivered[e.id] = (ids_, m)
        # what clients were sent
        while got:
            k, m = fix(got.pop(0))
            md = m["metadata"]
            orig = md.get("original_msg_id")
            c = casts.get(orig)
            check(c is not None, "a reply to no broadcast: %r", md)
            same(k, c.client, "client that gets the reply to %s" % orig)
            bufs = [bytes(b) for b in m["buffers"]]
            same(m["header"]["msg_type"], c.kind + "_reply", "type of the reply")
            if not c.coalescing:
                key = m["parent_header"]["msg_id"]
                eid = [i for i in c.targets if key == orig + "_" + tree.engines[i].uuid]
                same(len(eid), 1, "targets matching the reply %s" % key)
                eid = eid[0]
                check(eid in c.replies, "a reply for engine %i, which did not answer", eid)
                check(eid not in c.received, "two replies from engine %i", eid)
                r, content, b = c.replies[eid]
                same(m["content"], content, "content of engine %i's reply" % eid)
                same(bufs, b, "buffers of engine %i's reply" % eid)
                same(md.get("engine"), tree.engines[eid].uuid, "engine of the reply")
                c.received[eid] = True
                continue
            check(not c.received, "two combined replies to %s", orig)
            check(set(c.replies) == set(c.targets), "a combined reply to %s before %r answered", orig, sorted(set(c.targets) - set(c.replies)))
            check(md.get("is_coalescing") and md.get("is_broadcast"), "combined reply is not marked as such: %r", md)
            bt = [list(t) for t in md.get("broadcast_targets", [])]
            same(sorted(bt), sorted([tree.engines[i].uuid, i] for i in c.targets), "targets of the combined reply")
            errors = [r for r in c.replies.values() if r[1]["status"] != "ok"]
            if errors:
                check(m["content"].get("status") == "error", "the errors of %r are masked: %r", [i for i in c.replies if c.replies[i][1]["status"] != "ok"], m["content"])
                check(m["content"] in [r[1] for r in errors], "no engine replied %r", m["content"])
                ctx.tag("combined_error")
            else:
                same(m["content"], {"status": "ok"}, "content of the combined reply")
                want = [b for u, i in bt for b in c.replies[i][2]]
                same(bufs, want, "combined buffers, in the order of broadcast_targets")
                ctx.tag("combined_ok")
            for i in c.targets:
                c.received[i] = True

    def respond(c, eid, status, bufs):
        ids_, m = c.delivered[eid]
        e = tree.engines[eid]
        if status == "ok":
            content = {"status": "ok"}
            bufs = bufs if c.kind == "apply" else []
            if c.kind == "execute":
                content["execution_count"] = len(bufs) + eid
        else:
            content = {"status": "error", "ename": "E%i" % eid, "evalue": "v%i" % eid, "traceback": ["t"],
                       "engine_info": e.kernel.get_engine_info(method="apply")}
            bufs = []
        frames, reply = e.reply(ids_, m, content, bufs)
        c.replies[eid] = (reply, content, list(bufs))
        tree.engine_send(e, frames, run=False)

    def open_(i):
        l = [(c, eid) for c in casts.values() for eid in sorted(c.delivered) if eid not in c.replies]
        return l[i % len(l)] if l else None

    def forgery(base, i, spec):
        """(only in C25) something with a wrong signature arrives"""
        from vlib import forge

        other = [bytes(f) for f in clients[1].serialize(clients[1].msg("nothing"))]
        if base == "sub":
            targets = [x for n, x in enumerate(ids) if i >> n % 6 & 1] or list(ids)
            m = clients[0].msg("apply_request", content={"forged": 1}, metadata={
                "targets": [(tree.engines[t].uuid, t) for t in targets], "is_broadcast": True, "is_coalescing": bool(i % 2)})
            st, fr = tree.root.client_stream, [idents[0]] + [bytes(f) for f in clients[0].serialize(m)]
        elif base == "res":
            o = open_(i)
            if o is None:
                return
            c, eid = o
            e = tree.engines[eid]
            fr, _ = e.reply(*c.delivered[eid], {"status": "ok", "forged": 1}, [b"forged"])
            st, fr = e.at, [e.uuid.encode()] + fr
        else:
            hops = [(x, f) for x, f in tree.queue if f[0] in x.peers and hasattr(x.peers[f[0]], "peers")]
            if not hops:
                return
            x, f = hops[i % len(hops)]
            st, fr = x.peers[f[0]], [x.socket.opts[zmq.IDENTITY]] + f[1:]
        n = len(tree.queue)
        st.deliver(forge.forge(fr, spec, other))
        check(len(tree.queue) == n, "a forged %s was forwarded: %r", base, list(tree.queue)[n:][:1])
        ctx.tag("forged_" + base)
        ctx.nontrivial()

    for op in ops:
        if op[0] == "forge":
            forgery(*op[1:])
        elif op[0] == "send":
            _, k, kind, sub, coal, bufs = op
            targets = list(ids) if sub == "all" else list(reversed(ids)) if sub == "reversed" else [x for n, x in enumerate(ids) if sub >> n & 1]
            if not targets:
                targets = list(ids)
            c = Cast()
            c.client, c.kind, c.targets, c.buffers = k, kind, targets, list(bufs)
            c.coalescing = coal and kind == "apply"
            c.delivered, c.replies, c.received = {}, {}, {}
            s = clients[k]
            content = {} if kind == "apply" else {"code": "1", "silent": True}
            c.msg = s.msg(kind + "_request", content=content, metadata={
                "targets": [(tree.engines[t].uuid, t) for t in targets], "is_broadcast": True, "is_coalescing": c.coalescing, "label": "L"})
            casts[c.msg["header"]["msg_id"]] = c
            tree.submit(idents[k], [bytes(f) for f in s.serialize(c.msg)] + list(bufs), run=False)
        elif op[0] == "hops":
            for _ in range(op[1]):
                if tree.queue:
                    tree.step()
        else:
            tree.run()
            observe()
            o = open_(op[1] if op[0] == "reply" else op[2])
            if o is None:
                continue
            c, eid = o
            if op[0] == "reply":
                respond(c, eid, op[2], op[3])
            else:
                left = [i for i in c.delivered if i not in c.replies]
                n = op[2]
                for j in range(len(left)):
                    i = left.pop(n % len(left))
                    respond(c, i, "error" if op[1] == "error" and j == 0 else "ok", op[3] + [b"%i" % i])
        observe()
    tree.run()
    observe()
    for c in casts.values():
        same(sorted(c.delivered), sorted(c.targets), "engines that got a broadcast to %r" % c.targets)
    n = 0
    while True:
        o = open_(n * 7 + 3)
        if o is None:
            break
        n += 1
        respond(o[0], o[1], "ok", [b"r%i" % o[1], b""][: 1 + n % 2])
        if n % 3 == 0:
            tree.run()
            observe()
    tree.run()
    observe()
    for c in casts.values():
        same(sorted(c.received), sorted(c.targets), "engines whose results the client got (%s)" % ("combined" if c.coalescing else "single"))
        if len(c.targets) > 1:
            ctx.nontrivial(list(c.replies) != c.targets or any(r[1]["status"] == "error" for r in c.replies.values()))
            ctx.tag("coalescing" if c.coalescing else "single")


SUBS = [Sub("tree", strategy, run, quick=900, thorough=20000)]
