"""Shared pieces of the per-property analyses."""
import itertools

from sa.num import A, Limit
from sa.engine import Fault, CAbort, P, FREED, RO
from sa.api import F, V, Seg, Caps, show, showev, toks, ref, attrs_of
from sa.run import Anchor, NOFAULT

I64MAX, I64MIN = (1 << 63) - 1, -(1 << 63)


def dom(n, typ, undef=True, lo=None, hi=None):
    return (n, typ, undef, lo, hi)


class World:
    """declarations + subscriptions: [(id, expr[, consts])]"""

    def __init__(self, doms, subs, cap=None, part=None):
        self.doms, self.subs, self.cap, self.part = doms, [s if len(s) > 2 else s + (None,) for s in subs], cap, part

    def show(self):
        return "domains %s%s; subs %s" % (
            ", ".join("%s:%s%s%s" % (n, ty, "" if u else "!", "" if lo is None and hi is None else "[%s..%s]" % (lo, hi)) for n, ty, u, lo, hi in self.doms),
            "" if self.cap is None else " (lnode cap %d, partition %d)" % (self.cap, self.part),
            "; ".join("%s: %s%s" % (i, show(e), " with %r" % (c,) if c else "") for i, e, c in self.subs))


def declare(t, doms, cap=None, part=None):
    t.a.make(cap, part)
    for d in doms:
        t.a.domain(*d)


def setup(t, w):
    """-> False when the analysed code refuses or faults on a valid subscription"""
    declare(t, w.doms, w.cap, w.part)
    for i, e, c in w.subs:
        t.begin()
        r = t.guard("insert %s: %s [%s]" % (i, show(e), w.show()), t.a.insert, i, e, c)
        if r is NOFAULT:
            return False
        if not r:
            t.check(False, "insert of the valid expression '%s' is refused [%s]" % (show(e), w.show()))
            return False
    return True


def env_of(doms, ev):
    """event as the language sees it (types of the declared attributes)"""
    items = list(ev.items()) if isinstance(ev, dict) else ev
    r = {}
    for n, v in items:
        if v is not None:
            r[n] = v
    return r


def expected(w, ev):
    env = env_of(w.doms, ev)
    return sorted(i for i, e, c in w.subs if ref(e, env, c or {}))


def events(t, w, evs, what="search"):
    """obligation per event: the reported ids are exactly the matching subs"""
    for ev in evs:
        t.begin()
        try:
            d = t.a.search(ev)
        except Fault as x:
            t.fault("search %s [%s]" % (showev(ev), w.show()), x)
            return
        except Limit as x:
            t.limit("search %s [%s]" % (showev(ev), w.show()), x)
            return
        ex = expected(w, ev)
        got = None if d is None else sorted(d["ids"])
        t.n += max(0, len(w.subs) - 1)
        t.check(got == ex, lambda: diff(w, ev, ex, got))


def diff(w, ev, ex, got):
    if got is None:
        return "event %s: the search fails on a valid event [%s]" % (showev(ev), w.show())
    ms = []
    for i, e, c in w.subs:
        a, b = ex.count(i), got.count(i)
        if a != b:
            ms.append("sub %s '%s'%s is %s" % (i, show(e), " (constants %r)" % c if c else "", "missed" if b < a else "reported although it is false" if a == 0 else "reported %d times" % b))
    extra = [g for g in got if g not in [s[0] for s in w.subs]]
    if extra:
        ms.append("unknown subs %r reported" % extra)
    sw = w.show()
    return "event %s: %s [%s]" % (showev(ev), "; ".join(ms[:4]), sw if len(sw) < 900 else sw[:900] + "...")


def match_world(t, w, evs):
    if setup(t, w):
        events(t, w, evs)


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]
