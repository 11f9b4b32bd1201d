"""Messages that must not be acted upon: altered or wrongly signed versions of valid ones."""
from vlib.fakes import make_session
from vlib.runner import HarnessError

DELIM = b"<IDS|MSG>"
HOWS = ["key", "nosig", "sig", "sigcut", "flip", "append", "cut", "swap", "drop", "dup", "nodelim", "other", "nokey", "onlysig", "sigcase"]


def strategy():
    from hypothesis import strategies as st

    return st.tuples(st.sampled_from(HOWS), st.integers(0, 3), st.integers(0, 400))


def forge(frames, spec, other=None):
    """frames of a valid message (with its idents) -> an altered one"""
    how, f, pos = spec
    i = frames.index(DELIM)
    ids, m = list(frames[:i]), [bytes(x) for x in frames[i + 1:]]
    sig, parts, bufs = m[0], m[1:5], m[5:]
    if how == "key":
        s = make_session(b"another key")
        sig = s.sign(parts)
    elif how == "nokey":
        import hashlib
        import hmac

        h = hmac.HMAC(b"", digestmod=hashlib.sha256)
        for p in parts:
            h.update(p)
        sig = h.hexdigest().encode()
    elif how == "nosig":
        sig = b""
    elif how == "sig":
        k = pos % len(sig)
        sig = sig[:k] + (b"0" if sig[k:k + 1] != b"0" else b"1") + sig[k + 1:]
    elif how == "sigcut":
        sig = sig[:pos % len(sig)]
    elif how == "sigcase":
        sig = sig[:-1] + bytes([sig[-1] ^ 0x80])
    elif how == "flip":
        p = bytearray(parts[f])
        p[pos % len(p)] ^= 1 << (pos % 7)
        parts[f] = bytes(p)
    elif how == "append":
        parts[f] = parts[f] + (b" " if pos % 2 else b"x")
    elif how == "cut":
        parts[f] = parts[f][:-1]
    elif how == "swap":
        g = (f + 1 + pos % 3) % 4
        if parts[f] == parts[g]:
            return forge(frames, ("flip", f, pos))
        parts[f], parts[g] = parts[g], parts[f]
    elif how == "drop":
        del parts[f]
        bufs = bufs if pos % 2 else []
    elif how == "dup":
        if parts[f] == (parts + [b""])[f + 1] and f < 3:
            return forge(frames, ("flip", f, pos))
        if f == 3:
            return forge(frames, ("cut", f, pos))
        parts.insert(f, parts[f])
    elif how == "nodelim":
        return ids + [sig] + parts + bufs
    elif how == "onlysig":
        return ids + [DELIM, sig]
    elif how == "other":
        j = other.index(DELIM) if other and DELIM in other else None
        if j is None or list(other[j + 2:j + 6]) == parts:
            return forge(frames, ("flip", f, pos))
        sig = other[j + 1]
    else:
        raise HarnessError(how)
    return ids + [DELIM, sig] + parts + bufs
