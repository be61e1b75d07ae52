"""Scenario generation. Every choice comes from the random.Random passed in."""
from sim import *
from model import geom

LONG = True      # long histories, latencies, stalls and pauses now and then (not in the slow PyMTL simulation)
EDGE = [0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0xff, 0x55555555, 0xaaaaaaaa, 0x00ff00ff, 0xfffffffe]


def pattern(r, long=False):
    k = r.random()
    if k < 0.45: return [1]
    n = r.choice([2, 3, 4, 5, 7, 8, 11, 16, 31, 64])
    p = r.choice([0.15, 0.3, 0.5, 0.5, 0.7, 0.9])
    b = [1 if r.random() < p else 0 for _ in range(n)]
    if k > 0.85:        # bursts
        on, off = r.randint(1, 6), r.randint(1, 9)
        b = [1] * on + [0] * off
        if long and r.random() < 0.07: b = [1] * on + [0] * r.choice([20, 33, 70, 130])
    return b


def sched(r, long=False):
    """Ready patterns that are jointly high at least once per period, and latencies."""
    a, b = pattern(r, long), pattern(r, long)
    if len(a) > 1 and len(b) > 1:
        n = max(len(a), len(b))
        a = (a * (n // len(a) + 1))[:n]
        b = (b * (n // len(b) + 1))[:n]
        a[0] = b[0] = 1
    else:
        a[0] = b[0] = 1
    k = r.random()
    if k < 0.4: lat = [1]
    elif k < 0.6: lat = [r.choice([2, 3, 4, 5, 8])]
    else: lat = [r.choice([1, 1, 2, 3, 4, 6, 10, 20]) for _ in range(r.randint(2, 12))]
    if long and r.random() < 0.02: lat = lat + [r.choice([1, 2, 5]) for _ in range(5)] + [r.choice([35, 70, 140, 300])]
    return a, b, lat


def env(r, scn, plain=0.2):
    if r.random() < plain:
        scn.resp, scn.mem, scn.lat = [[1]] * scn.ncores, [[1]] * scn.ncores, [[1]] * scn.ncores
    else:
        long = LONG and len(scn.ops) <= 80
        x = [sched(r, long) for _ in range(scn.ncores)]
        scn.resp, scn.mem, scn.lat = [list(t) for t in zip(*x)]
    scn.memseed = r.getrandbits(30)
    scn.initseed = r.getrandbits(29) + 1 if r.random() < 0.6 else 0
    scn.junk = r.getrandbits(31) if r.random() < 0.6 else 0
    scn.reset_len = r.choice([1, 2, 3])
    return scn


class Pool:
    """A small set of lines chosen so that sets conflict and tags are confusable."""

    def __init__(s, r, cfg, nset=None, ntag=None):
        s.cfg = cfg
        s.lb, s.db, s.nsets, s.asso = geom(cfg)
        abits = cfg[4]
        s.tagunit = s.lb * s.nsets
        ntags = (1 << abits) // s.tagunit
        nset = nset or r.choice([1, 1, 2, 2, 3, 4])
        ntag = ntag or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        cand = [0, s.nsets - 1] if r.random() < 0.5 else []
        sets = cand[:nset]
        while len(sets) < min(nset, s.nsets):
            x = r.randrange(s.nsets)
            if x not in sets: sets.append(x)
        tags = []
        base = r.choice([0, 0, ntags - 1, r.randrange(ntags)])
        while len(tags) < min(ntag, ntags):
            k = r.random()
            if k < 0.4: t = base ^ (1 << r.randrange(max(1, ntags.bit_length() - 1)))   # one bit apart
            elif k < 0.7: t = r.randrange(ntags)
            elif k < 0.9: t = base + len(tags)
            else: t = base
            t %= ntags
            if t not in tags: tags.append(t)
        s.sets, s.tags = sets, tags
        s.lines = [t * s.tagunit + x * s.lb for t in tags for x in sets]
        s.recent = []

    def line(s, r):
        if s.recent and r.random() < 0.35: return r.choice(s.recent)
        l = r.choice(s.lines)
        s.recent.append(l)
        if len(s.recent) > 3: s.recent.pop(0)
        return l


def rdata(r, bits):
    k = r.random()
    if k < 0.25:
        v = 0
        for i in range((bits + 31) // 32): v |= r.choice(EDGE) << 32 * i
        return v & ((1 << bits) - 1)
    return r.getrandbits(bits)


def sizes(cfg):
    db = cfg[1] // 8
    return [0] + [x for x in (1, 2, 4, 8) if x < db]


def amo_len(cfg):
    return 0 if cfg[1] == 32 else 4


def op_rw(r, cfg, pool, wr, lens=None):
    ln = r.choice(lens or sizes(cfg))
    n = cfg[1] // 8 if ln == 0 else 8 if ln == 3 else ln
    a = pool.line(r) + r.randrange(pool.lb // n) * n
    d = rdata(r, cfg[1]) if wr else (r.getrandbits(cfg[1]) if r.random() < 0.1 else 0)
    return Op(WRITE if wr else READ, a, ln, d)


def op_amo(r, cfg, pool, t=None):
    a = pool.line(r) + r.randrange(pool.lb // 4) * 4
    return Op(t if t is not None else r.choice(AMOS), a, amo_len(cfg), rdata(r, 32))


MIXES = [  # rd, wr, amo, inv, flush, dword
    (50, 50, 0, 0, 0), (40, 40, 20, 0, 0), (40, 45, 5, 5, 5), (30, 40, 0, 30, 0), (30, 45, 0, 0, 25),
    (25, 25, 40, 5, 5), (20, 30, 20, 15, 15), (70, 20, 5, 3, 2), (15, 75, 5, 3, 2), (35, 35, 10, 10, 10)]


def gaps(r, ops, pol=None):
    k = r.random() if pol is None else pol
    for o in ops:
        if k < 0.5: o.gap = 0
        elif k < 0.8: o.gap = r.choice([0, 0, 0, 1, 1, 2, 3, 5])
        else: o.gap = r.choice([0, 1, 2, 4, 7, 12])
    if k > 0.9:
        for o in ops: o.drain = int(r.random() < 0.5)
    if LONG and r.random() < 0.02: r.choice(ops).gap = r.choice([20, 40, 70, 140, 300])


def s_lines(cfg): return cfg[2] * 8 // cfg[0]


def op_ctl(r, cfg, pool, t):
    """INV and FLUSH concern the whole cache; some carry an address and data all the same."""
    if r.random() < 0.85: return Op(t)
    return Op(t, r.choice(pool.lines) + r.randrange(pool.lb), r.choice(sizes(cfg)), rdata(r, cfg[1]))


def ops_general(r, cfg, n=None, mix=None, pool=None, dword=True):
    pool = pool or Pool(r, cfg)
    mix = mix or r.choice(MIXES)
    k = r.random()
    n = n or (r.randint(1, 12) if k < 0.25 else r.randint(10, 60) if k < 0.93 else r.randint(60, 200))
    if LONG and r.random() < 0.006 and s_lines(cfg) <= 64: n = r.randint(280, 1100)
    opq_mode = r.random()
    ops = []
    kinds = r.choices(range(5), weights=mix, k=n)
    dw = dword and cfg[1] == 32 and cfg[0] >= 64 and r.random() < 0.3
    wl = sizes(cfg)
    if r.random() < 0.2: wl = [r.choice(wl)]
    for x in kinds:
        if x == 0: o = op_rw(r, cfg, pool, 0)
        elif x == 1: o = op_rw(r, cfg, pool, 1, [3] if dw and r.random() < 0.4 else wl)
        elif x == 2: o = op_amo(r, cfg, pool)
        else: o = op_ctl(r, cfg, pool, INV if x == 3 else FLUSH)
        o.opq = r.getrandbits(cfg[5]) if opq_mode < 0.8 else len(ops) & ((1 << cfg[5]) - 1)
        ops.append(o)
    gaps(r, ops)
    return ops, pool
