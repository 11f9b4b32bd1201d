"""C43: comms (widgets) of engines and the frontend of the client's kernel."""
import warnings

from vlib.runner import Sub, check, same as _same

PROPERTY = "C43"
RULE = ("cases: histories of comms that engines open, use and close (any data, metadata and buffers) while they run tasks of one of two clients, of messages and closes from the frontend, and of deliveries in any order; "
        "in a kernel or not. Non-trivial: two comms of different engines, or messages both ways")
ASSUMPTIONS = ["ids of comms are unique", "what the kernel keeps of a comm that an engine closed is not claimed"]
SHARDS = 4
QUICK_S = 15
THOROUGH_S = 150


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    data = st.one_of(st.just({}), st.dictionaries(st.sampled_from(["a", "b", "method"]), st.one_of(st.integers(-3, 3), st.text(max_size=3), st.none(), st.lists(st.integers(0, 2), max_size=2)), max_size=2))
    bufs = st.lists(st.sampled_from([0, 1, 5, 2000]), max_size=2)
    md = st.one_of(st.just({}), st.dictionaries(st.sampled_from(["v", "label", "w"]), st.integers(0, 3), max_size=2))
    op = weighted(
        (2, st.tuples(st.just("task"), st.integers(0, 5), st.booleans())), (3, st.tuples(st.just("open"), st.integers(0, 5), data, md, bufs)), (3, st.tuples(st.just("emsg"), st.integers(0, 5), data, md, bufs)),
        (1, st.tuples(st.just("eclose"), st.integers(0, 5), data, md, bufs)), (3, st.tuples(st.just("fmsg"), st.integers(0, 5), data, md, bufs)), (1, st.tuples(st.just("fclose"), st.integers(0, 5), data, md, bufs)),
        (5, st.tuples(st.just("deliver"), st.integers(1, 8))))
    return st.fixed_dictionaries({"n": st.integers(1, 3), "kernel": weighted((9, st.just(True)), (1, st.just(False))), "ops": st.lists(op, min_size=6, max_size=30), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


class Ip:
    pass


def run(case, ctx):
    from unittest import mock

    from comm.base_comm import CommManager
    from ipyparallel.client import client as mod
    from jupyter_client.session import Session
    from vlib.clientsim import Net
    from vlib.fakes import FakeStream

    warnings.simplefilter("ignore")
    net = Net(list(range(case["n"])), picks=case["picks"])
    c = net.client
    peer = net.add_client()
    parents = {}        # engine: requests it has had
    at_engine = []      # comm messages that engines got

    def handler(e, msg):
        if msg["header"]["msg_type"].startswith("comm_"):
            at_engine.append((e.id, msg["header"]["msg_type"], msg["content"], msg["metadata"], [bytes(b) for b in msg["buffers"]]))
            return None
        parents.setdefault(e.id, []).append(msg)
        return net.execute(e, msg)

    net.handler = handler
    ip = Ip()
    front = []
    reader = Session(key=b"front")

    class Kernel:
        session = Session(key=b"front")
        comm_manager = CommManager()
        iopub_socket = FakeStream("front")
        n = 0

        def get_parent(self, channel=None):
            return {"header": {"msg_id": "frontend-%i" % self.n, "session": "front"}}

    ip.kernel = Kernel()

    def read_front():
        got = []
        for fr in ip.kernel.iopub_socket.take():
            _, rest = reader.feed_identities([bytes(b) for b in fr])
            m = reader.deserialize(rest)
            got.append(m)
        front.extend(got)
        return got

    real = c._mux_socket, peer.client._mux_socket
    c._trait_values["_mux_socket"] = net.streams["mux"]
    peer.client._trait_values["_mux_socket"] = peer.streams["mux"]
    comms = []          # of engines
    results = []
    to_front = {}       # comm: what its engine sent
    to_engine = []      # what the frontend sent
    both = [False, False]
    serial = [0]

    def buffers(spec):
        out = []
        for n in spec:
            serial[0] += 1
            out.append(bytes([serial[0] % 256]) * n)
        return out

    def esend(k, typ, content, md, bufs):
        com = comms[k]
        # a later request of the same client
        ps = [p for p in parents[com["engine"].id] if p["header"]["session"] == com["session"]]
        md = dict(md)
        net.iopub(com["engine"], ps[com["parent"] % len(ps)], typ, dict(content, comm_id=com["id"]), buffers=bufs, metadata=md)
        to_front[k].append((typ, dict(content, comm_id=com["id"]), dict(md, engine=com["engine"].uuid), bufs))

    try:
        with mock.patch.object(mod, "get_ipython", lambda: ip if case["kernel"] else None):
            for op in [("task", i, who) for i in range(case["n"]) for who in (False, True)[:1 + case["n"] % 2]] + [("deliver", 5)] + case["ops"]:
                if op[0] == "task":
                    i = op[1] % case["n"]
                    cl = peer.client if op[2] else c
                    results.append((cl, cl[i].apply_async(pow, 2, op[1]), 2 ** op[1]))
                elif op[0] == "deliver":
                    for _ in range(op[1]):
                        net.step()
                elif op[0] == "open":
                    es = sorted(parents)
                    if not es:
                        continue
                    e = net.engines[es[op[1] % len(es)]]
                    ps = parents[e.id]
                    comms.append({"id": "comm%i" % len(comms), "engine": e, "session": ps[op[1] % len(ps)]["header"]["session"], "parent": op[1] // max(1, len(es)), "open": True})
                    k = len(comms) - 1
                    to_front[k] = []
                    esend(k, "comm_open", {"data": op[2], "target_name": "t%i" % op[1], "target_module": None}, op[3], buffers(op[4]))
                elif op[0] in ("emsg", "eclose") and comms:
                    k = op[1] % len(comms)
                    if not comms[k]["open"]:
                        continue
                    esend(k, "comm_msg" if op[0] == "emsg" else "comm_close", {"data": op[2]}, op[3], buffers(op[4]))
                    comms[k]["open"] = op[0] == "emsg"
                elif op[0] in ("fmsg", "fclose"):
                    ks = [k for k in range(len(comms)) if comms[k]["id"] in ip.kernel.comm_manager.comms]
                    if not ks:
                        continue
                    k = ks[op[1] % len(ks)]
                    typ = "comm_msg" if op[0] == "fmsg" else "comm_close"
                    bufs = buffers(op[4])
                    m = reader.msg(typ, content={"comm_id": comms[k]["id"], "data": op[2]}, metadata=op[3], parent={"header": {"msg_id": "other"}})
                    m["buffers"] = [memoryview(b) for b in bufs]
                    getattr(ip.kernel.comm_manager, typ)(None, b"", m)
                    to_engine.append((k, typ, {"comm_id": comms[k]["id"], "data": op[2]}, op[3], bufs))
                ip.kernel.n += 1
                for m in read_front():
                    check(m["parent_header"] == {"msg_id": "frontend-%i" % (ip.kernel.n - 1), "session": "front"}, "the frontend got a message with parent %r", m["parent_header"])
            net.run()
            read_front()
            what = "comm messages the frontend got"
            if not case["kernel"]:
                same(front, [], what)
            else:
                same(len(front), sum(len(v) for v in to_front.values()), "number of %s", what)
            for k, com in enumerate(comms):
                got = [(m["msg_type"], m["content"], m["metadata"], [bytes(b) for b in m["buffers"]]) for m in front if m["content"]["comm_id"] == com["id"]]
                if case["kernel"]:
                    same(got, to_front[k], "%s of %s of engine %d", what, com["id"], com["engine"].id)
                sent = [(com["engine"].id,) + x[1:] for x in to_engine if x[0] == k]
                arrived = [x for x in at_engine if x[2].get("comm_id") == com["id"]]
                same(arrived, sent, "comm messages for %s that engines got", com["id"])
                both[0] |= bool(sent)
                both[1] |= len(to_front[k]) > 1
            same(len(at_engine), len(to_engine), "number of comm messages that engines got")
            for cl, ar, want in results:
                same(net.call(ar.get, "the result of a task"), want, "the result of a task")
            check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
            check(not c.outstanding and not peer.client.outstanding, "outstanding")
            if case["kernel"] and (all(both) or len({com["engine"].id for com in comms}) > 1):
                ctx.nontrivial()
    finally:
        c._trait_values["_mux_socket"], peer.client._trait_values["_mux_socket"] = real
        ip.kernel.comm_manager.comms.clear()
        net.close()


SUBS = [Sub("comms", strategy, run, quick=1500, thorough=20000)]
