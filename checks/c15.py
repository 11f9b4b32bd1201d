"""C15: a real HeartMonitor, beat by beat, against a count of unanswered pings."""
import json

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C15"
RULE = ("cases: allowance of missed pings, up to 5 hearts, a history of beats; per beat and heart: answers to the current, previous, older, "
        "future or foreign pings, repeated, malformed, read at once or only at the next beat. Non-trivial: a heart is declared dead, or "
        "missed pings without dying, or beats again after death")
ASSUMPTIONS = ["the period passes between two beats", "answers to the last ping but one are late but count (as documented in the log message)"]
SHARDS = 4
QUICK_S = 15
THOROUGH_S = 200

HEARTS = [b"h0", b"h1", "h\u00e92".encode(), b"00000000-0000-0000", b"h4"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    # runs of the same behaviour make deaths likely
    what = weighted((4, st.just("cur")), (4, st.just("none")), (1, st.just("prev")), (1, st.just("old")), (1, st.just("foreign")), (1, st.just("empty")),
                    (1, st.just("short")), (1, st.just("twice")), (1, st.just("queued")), (1, st.just("queued_prev")), (1, st.just("first")), (1, st.just("prefix")))
    heart = st.lists(st.tuples(what, st.integers(1, 6)), min_size=1, max_size=7)
    return st.tuples(st.integers(0, 4), st.lists(heart, min_size=1, max_size=5), st.integers(4, 30))


def run(case, ctx):
    from vlib.hbsim import Beats

    misses, hearts, n = case
    plans = []
    for h in hearts:
        p = []
        for what, k in h:
            p += [what] * k
        plans.append(p)
    hb = Beats(misses)
    same(hb.timer.callback_time, 3000, "period of the beats in ms")
    known = {}
    died = set()
    responses = set()
    for b in range(n):
        sent = hb.beat()
        check(len(sent) == 1 and len(sent[0]) == 1, "%d pings in one beat", len(sent))
        check(len(set(hb.pings)) == len(hb.pings), "ping %r was used before", hb.pings[-1])
        # what has to be announced
        new = {h for h in responses if h not in known}
        dead = set()
        for h in known:
            known[h] = 0 if h in responses else known[h] + 1
            if known[h] > misses:
                dead.add(h)
            elif known[h]:
                ctx.tag("missed_some")
        for h in dead:
            del known[h]
            died.add(h)
            ctx.tag("dead")
        for h in new:
            known[h] = 0
            if h in died:
                ctx.tag("revived")
        got = {"new_heart": [], "stopped_heart": []}
        for fr in hb.take():
            same(fr[:3], [b"heartmonitor", b"", b"<IDS|MSG>"], "topic of a notification")
            m = hb.session.deserialize(fr[3:], content=True)
            hb.session.digest_history.clear()
            t = m["header"]["msg_type"]
            check(t in got, "unexpected notification %s", t)
            got[t].extend(m["content"]["hearts"])
        for kind, want in (("new_heart", new), ("stopped_heart", dead)):
            same(sorted(got[kind]), sorted(h.decode() for h in want), "%s announced at beat %d (answers %r)" % (kind, b, plans))
        responses = set()
        # answers to this ping
        cur = hb.pings[-1]
        prev = hb.pings[-2] if b else b"foreign-1"
        for i, p in enumerate(plans):
            h = HEARTS[i]
            w = p[b] if b < len(p) else "none"
            if w in ("cur", "queued", "twice"):
                hb.answer(h, cur, queued=w == "queued")
                if w == "twice":
                    hb.answer(h, cur)
                responses.add(h)
            elif w in ("prev", "queued_prev"):
                hb.answer(h, prev, queued=w == "queued_prev")
                if b:
                    responses.add(h)
            elif w == "old":
                if b >= 2:
                    hb.answer(h, hb.pings[-3])
            elif w == "first":
                if b >= 2:
                    hb.answer(h, hb.pings[0])
            elif w == "foreign":
                hb.answer(h, b"12345.678")
            elif w == "empty":
                hb.answer(h, b"")
            elif w == "prefix":
                hb.answer(h, cur[:-1] + b"x")
            elif w == "short":
                hb.pong.deliver([h])
    ctx.nontrivial(bool(ctx.tags & {"dead", "missed_some", "revived"}))


CORPUS = [
    (2, [[("cur", 2), ("none", 3), ("cur", 2)], [("cur", 1), ("none", 2), ("cur", 1), ("none", 2), ("cur", 1)]], 12),
    (0, [[("cur", 1), ("none", 1), ("prev", 2)], [("old", 3), ("foreign", 2)]], 8),
]
SUBS = [Sub("beats", strategy, run, quick=3000, thorough=100000, examples=CORPUS)]
