"""C03: special predicates: frequency caps, segments, string patterns, geo radius (coarse)."""
import math
from .lib import *
from .c01 import variants, BIGCAP

US = 1000000
TYPES = ["advertiser", "campaign", "campaign_group", "flight", "product"]
CONST = dict(advertiser_id=1, campaign_id=2, campaign_group_id=3, flight_id=4, product_id=5)
IDN = dict(advertiser="advertiser_id", campaign="campaign_id", campaign_group="campaign_group_id", flight="flight_id", product="product_id")


def run(t, doms, subs, evs):
    match_world(t, World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *BIGCAP), evs)


def subs_of(exprs, consts=None):
    return [(v, consts) for e in exprs for v in variants(e)]


def seg_events(ids, now, secs):
    return


def geo_ref(lat1, lon1, lat2, lon2):
    r = math.pi / 180
    a = math.sin((lat2 - lat1) * r / 2) ** 2 + math.cos(lat1 * r) * math.cos(lat2 * r) * math.sin((lon2 - lon1) * r / 2) ** 2
    return 2 * 6372.8 * math.asin(math.sqrt(a))


def geo(t, cases, undef):
    doms = [dom("latitude", "float", undef), dom("longitude", "float", undef), dom("zz", "bool")]
    declare(t, doms, *BIGCAP)
    n, want = 0, {}
    for (la, lo), rads in cases:
        for r in rads:
            n += 1
            want[n] = (la, lo, r)
            ok = t.guard("insert of a geo predicate", t.a.insert, n, ("geo", F(la), F(lo), F(r)))
            if ok is NOFAULT or not ok:
                t.check(False, "insert of geo_within_radius(%r, %r, %r) is refused" % (la, lo, r))
                return
    pts = [(la, lo) for la in (0.0, 45.0, -33.5, 89.0, -90.0) for lo in (0.0, 100.25, -179.5, 180.0)]
    pts += [(la, lo) for la in (10.0, -10.0) for lo in (10.0, -10.0, 170.0, -170.0)] + [(51.5, -0.1), (51.5, 0.1), (-51.5, 0.1), (0.0, 179.9), (90.0, 0.0), (-33.5, 179.5), (10.0, -179.0), (45.0, -100.0), (-45.0, 100.0), (12.0, 100.0), (60.0, 100.0)]
    for la, lo in pts:
        if True:
            t.begin()
            d = t.guard("search", t.a.search, {"latitude": F(la), "longitude": F(lo)})
            if d is NOFAULT:
                return
            for i, (a, b, r) in want.items():
                dist = geo_ref(a, b, la, lo)
                if abs(dist - r) > 1 + dist * 1e-3:
                    t.check((i in d["ids"]) == (dist <= r), "geo_within_radius(%r, %r, %r) for (%r, %r) at %.1f km: %s" % (a, b, r, la, lo, dist, i in d["ids"]))
    if undef:
        for ev in ({}, {"latitude": F(0.0)}, {"longitude": F(0.0)}):
            t.begin()
            d = t.guard("search", t.a.search, ev)
            if d is not NOFAULT:
                t.check(d is not None and d["ids"] == [], "geo predicate with %s undefined matches" % ("a coordinate",))


def build(ck):
    ck.partition = ("Frequency caps: every combination of matching / differing type, id and namespace, position in the list, length sign, elapsed time before / at / after the length "
                    "(abstract 'now' and timestamps with second and microsecond offsets) and value order. Segments: every order class of (now - seconds) against the timestamp, ids before / after "
                    "in the list, duplicates. String patterns: every pair of strings up to length 3 over a two letter alphabet, longer overlaps. Geo: only points whose distance is far from the radius.")
    zz = dom("zz", "bool")
    und = [{"zz": False}, {}]
    # ---------------------------------------------------------------- segments
    for name in (None, "sg"):
        at = name or "segments_with_timestamp"
        for req in (True, False):
            d = [dom(at, "seg", req), dom("now", "int", req), zz]
            for sec in (0, 20, -20, 1, A(1), (1 << 32) + 20):
                ex = [("seg", o, name, i, sec) for o in ("segment_within", "segment_before") for i in (7, A(1))]
                evs = []
                now = A(5)
                base = now - sec
                for dt in (-2 * US, -US - 1, -US, -US + 1, -1, 0, 1, US - 1, US, US + 1, 2 * US):
                    ts = base * US + dt
                    for l in ([(7, ts)], [(3, 0), (7, ts)], [(9, A(9)), (7, ts), (8, A(8))], [(7, ts), (7, base * US + 5 * US)], [(7, ts), (7, base * US - 5 * US)], [(A(1), ts)], [(A(1, 1), ts), (A(1), ts), (A(1, -1), 0)],
                              [((1 << 32) + 7, ts)]):
                        evs.append({at: Seg(l), "now": now, "zz": False})
                evs += [{at: Seg([]), "now": now, "zz": False}, {at: Seg([(8, A(5))]), "now": now, "zz": False}, {at: Seg([(7, 0)]), "now": 0, "zz": False}, {at: Seg([(7, -US)]), "now": 0, "zz": False}]
                if req:
                    evs += und + [{at: Seg([(7, A(5) * US)]), "zz": False}, {"now": A(5), "zz": False}, {at: None, "now": A(5)}]
                if req or sec in (0, 20):
                    for c in chunks(evs, 40):
                        ck.task("segments, seconds %r" % (sec,), run, d, subs_of(ex), c)
    # times around zero, and smaller than the number of seconds
    d = [dom("sg", "seg"), dom("now", "int"), zz]
    ex = [("seg", o, "sg", 7, sec) for o in ("segment_within", "segment_before") for sec in (0, 1, 20, 100, -20, 1 << 40)]
    tm = [(now, s) for now in (0, 1, 10, 20, 99, -10, -100, 1 << 41) for s in (0, 1, 5, -5, 10, -10, 79, 80, -89, -90, -91, -110, -120, -200, 1 << 40, -(1 << 40))]
    for c in chunks([{"sg": Seg([(7, s * US)]), "now": now, "zz": False} for now, s in tm], 45):
        ck.task("segments, times around zero", run, d, subs_of(ex), c)
    d = [dom("frequency_caps", "freq"), dom("now", "int"), zz]
    ex = [("freq", "flight", "ns", 10, ln) for ln in (0, 1, 20, 100, 1 << 40)]
    for c in chunks([{"frequency_caps": Caps([("flight", 4, "ns", v, s * US)]), "now": now, "zz": False} for now, s in tm for v in (3, 20)], 60):
        ck.task("frequency caps, times around zero", run, d, subs_of(ex, CONST), c)
    # many segments in the event
    many = [(100 + (i * 37) % 50, (1000 + i) * US) for i in range(50)]
    d = [dom("segments_with_timestamp", "seg"), dom("now", "int"), dom("sg", "seg"), zz]
    ex = [("seg", o, n, i, 20) for o in ("segment_within", "segment_before") for i in (100, 125, 149, 150) for n in (None, "sg")]
    ck.task("many segments", run, d, subs_of(ex), [{"segments_with_timestamp": Seg(many), "now": nw, "sg": Seg(many[:k]), "zz": False} for nw in (1000, 1040, 1045, 1069, 1080) for k in (1, 20, 49)])
    # ---------------------------------------------------------------- frequency caps
    allt = [x + s for x in TYPES for s in ("", ":ip")]
    for req in (True, False):
        d = [dom("frequency_caps", "freq", req), dom("now", "int", req), zz]
        for ty in allt:
            cid = CONST[IDN[ty.split(":")[0]]]
            now = A(5)
            for length in (0, 20, -1, A(1)) if req or ty == "flight" else (20,):
                if length == -1:
                    continue    # a negative length is not expressible as a duration
                ex = [("freq", ty, "ns", 10, length), ("freq", ty, "other", 10, length), ("freq", ty, "", 1, length)]
                evs = []
                edge = now - length
                for v in (0, 9, 10, 11, (1 << 31) + 5):
                    for dt in (-US, -1, 0, 1, US, 5 * US):
                        evs.append([(ty, cid, "ns", v, edge * US + dt)])
                ts = edge * US + 5 * US
                for ot in allt:
                    if ot != ty:
                        evs.append([(ot, cid, "ns", 20, ts)])
                # an id or a value alike in its low bits only
                evs += [[(ty, cid + d, "ns", 20, ts)] for d in (1 << 8, 1 << 16, 1 << 31)] + [[(ty, cid + (1 << 16), "ns", 20, ts), (ty, cid, "ns", 3, ts)]]
                evs += [[(ty, cid, "ns", v, now * US + dt)] for v in (3, 20) for dt in (0, US, 5 * US, 1000 * US)]
                evs += [[(ty, cid + 1, "ns", 20, ts)], [(ty, cid, "nsx", 20, ts)], [(ty, cid, "", 20, ts)], [(ty, cid, "unknown", 20, ts)], [],
                        [(ty, cid, "other", 20, ts), (ty, cid, "ns", 3, ts)], [(ty, cid, "ns", 3, ts), (ty, cid, "other", 20, ts)],
                        [(ty, cid, "ns", 20, ts), (ty, cid, "ns", 3, ts)], [(ty, cid, "ns", 3, ts), (ty, cid, "ns", 20, ts)],
                        [(ty, cid + 1, "ns", 3, ts), (ty, cid, "unknown", 3, ts), (ty, cid, "ns", 20, ts)],
                        [(ty, cid, "unknown", 30, ts), (ty, cid, "unknown2", 30, ts)]]
                evl = [{"frequency_caps": Caps(l), "now": now, "zz": False} for l in evs]
                if req:
                    evl += und + [{"frequency_caps": Caps(evs[0]), "zz": False}, {"now": now, "zz": False}, {"frequency_caps": Caps([]), "zz": False}]
                for c in chunks(evl, 34):
                    ck.task("frequency caps %s, length %r" % (ty, length), run, d, subs_of(ex, CONST), c)
    d = [dom("frequency_caps", "freq"), dom("now", "int"), zz]
    ex = [("freq", "flight", "ns", v, 20) for v in (0, 1, 10, (1 << 31) + 5, (1 << 32) + 10, A(1), -1)]
    ck.task("frequency cap values", run, d, subs_of(ex, CONST), [{"frequency_caps": Caps([("flight", 4, "ns", v, A(5) * US)]), "now": A(5), "zz": False} for v in (0, 1, 9, 10, 11, (1 << 31) + 4, (1 << 31) + 5, (1 << 32) - 1)])
    big = [(TYPES[i % 5], i, "n%d" % (i % 7), i, (1000 + i) * US) for i in range(40)]
    cs = dict(advertiser_id=35, campaign_id=6, campaign_group_id=17, flight_id=38, product_id=4)
    ex = [("freq", ty, "n%d" % (cs[IDN[ty]] % 7), v, 20) for ty in TYPES for v in (3, 20, 40)]
    ck.task("many frequency caps", run, d, subs_of(ex, cs), [{"frequency_caps": Caps(big[k:] + big[:k]), "now": nw, "zz": False} for nw in (1000, 1025, 1050, 1059) for k in (0, 13)])
    # ---------------------------------------------------------------- string patterns
    words = [""] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("ab", repeat=n)] + ["aabab", "ababab", "abaab" * 3, "Ab", "b" * 70]
    for hi in (None, 60):
        for req in (True, False):
            d = [dom("s", "str", req, None, hi), zz]
            for op in ("contains", "starts_with", "ends_with"):
                ex = [("str", op, "s", p) for p in words]
                evs = [{"s": w, "zz": False} for w in words + ["aaab", "baaa", "c", "xaby", "abab", "b" * 71, "b" * 69]] + (und + [{"s": None}] if req else [])
                ck.task("string patterns %s" % op, run, d, subs_of(ex), evs)
    # long values, short and long patterns
    longs = [("xy" * 200 + "ab")[-n:] for n in (254, 255, 256, 257, 258, 300)] + ["ab" + "z" * n for n in (253, 254, 255, 256, 300)] + ["z" * n + "ab" + "z" * m for n, m in ((255, 1), (1, 255), (256, 300), (127, 2))]
    for op in ("contains", "starts_with", "ends_with"):
        ck.task("string patterns %s, long" % op, run, [dom("s", "str"), zz], subs_of([("str", op, "s", p) for p in ("ab", "b", "abz", "zab", "z" * 250, longs[1], longs[2], longs[6] , "z" * 256)]), [{"s": x, "zz": False} for x in longs + [longs[2][1:], longs[2] + "b", "z" * 600]])
    # ---------------------------------------------------------------- geo
    for undef in (True, False):
        pts = [((la, lo), (0.5, 100.0, 300.0, 1000.0, 5000.0, 10100.0, 15000.0, 25000.0)) for la, lo in ((0.0, 0.0), (45.0, 100.0), (-33.5, -179.75), (89.0, 10.0), (-89.5, 0.0), (10.0, 179.0), (10.0, 10.0), (-10.0, -170.0), (51.5, -0.1), (-51.5, 0.0), (10.0, -10.0))]
        for c in chunks(pts, 2):
            ck.task("geo radius", geo, c, undef)
