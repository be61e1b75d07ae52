"""The dynamic checks: generated operation histories against the simulated cache."""
import random, re
from sim import *
from model import *
from gen import *
from engine import Check
import audit as A
import build

re_ansi = re.compile('\x1b\\[[0-9;]*m')

# (line bits, data bits, bytes, ways, address bits, opaque bits)
CORE = [(128, 32, 32, 1, 32, 8), (128, 32, 64, 2, 32, 8), (64, 32, 64, 2, 32, 8), (256, 32, 256, 1, 32, 8),
        (256, 64, 256, 2, 32, 8), (512, 128, 512, 1, 32, 8), (128, 128, 64, 2, 32, 8), (128, 32, 256, 2, 40, 16),
        (64, 64, 64, 1, 24, 4), (512, 32, 512, 2, 48, 1)]
HUGE = [(64, 32, 8192, 1, 32, 8), (64, 32, 8192, 2, 32, 8)]      # 1024 and 2 x 512 lines
BIG = [(128, 32, 4096, 2, 32, 8), (128, 32, 4096, 1, 32, 8), (256, 64, 4096, 2, 32, 8), (128, 64, 2048, 1, 32, 8)]


def rand_cfg(r, maxlines=32, dbw=(32, 32, 64, 128), asso=(1, 2), clw=(64, 128, 128, 256, 512)):
    while True:
        d, c, a = r.choice(dbw), r.choice(clw), r.choice(asso)
        if c < d: continue
        lines = a * 2 ** r.randint(1, 8)
        if lines > maxlines: continue
        ab = r.choice([32, 32, 32, 16, 20, 24, 28, 33, 40, 48, 64])
        nb = lines * c // 8
        if nb * 2 > 1 << ab: continue
        return (c, d, nb, a, ab, r.choice([8, 8, 8, 1, 2, 3, 4, 5, 12, 16, 32]))


def pairs(c):
    v = [c[0], c[1], c[2] * 8 // c[0] // c[3], c[3], c[4], c[5]]
    return {(i, v[i], j, v[j]) for i in range(6) for j in range(i)}


def plan(r, tier, n, core=None, extra=9, big=1, flt=None, nx=0.5, **kw):
    """The core configurations, then random ones chosen to cover as many pairs of parameter values as possible, then large ones."""
    core = [c for c in (core or CORE) if flt is None or flt(c)]
    cs = list(core)
    if tier == 'thorough': extra, n, big = extra * 4, n * 20, len(BIG)
    seen = set()
    for c in cs: seen |= pairs(c)
    for _ in range(extra):
        best = None
        for _ in range(40):
            c = rand_cfg(r, **kw)
            if c in cs or not (flt is None or flt(c)): continue
            k = len(pairs(c) - seen)
            if best is None or k > best[0]: best = (k, c)
        if best is None: break
        cs.append(best[1])
        seen |= pairs(best[1])
    out = [(c, n if i < len(core) else max(1, int(n * nx))) for i, c in enumerate(cs)]
    bg = [c for c in BIG if flt is None or flt(c)]
    if tier != 'thorough': bg = r.sample(bg, min(big, len(bg)))
    for c in bg: out.append((c, max(8, n // 12)))
    return out


class Base(Check):
    n = 500
    cats = ()
    assumptions = ['The design is simulated cycle by cycle (Verilog translated from the current tree, two-state, Verilator); C17 ties this to the PyMTL simulation.',
                   'Requests are naturally aligned, carry the documented widths, and LR/SC are not used.',
                   'Memory answers every request, in order; the response and memory-request channels are ready together infinitely often.']

    def cfgs(self, r, tier): return plan(r, tier, self.n)


# ------------------------------------------------------------------ C01
class C01(Base):
    pid = 'C01'
    n = 900
    rule = ('random read/write/AMO/INV/FLUSH histories over a few conflicting lines, random stalls, latencies, idle-bus junk and power-on state, half ending in FLUSH and readback; '
            'non-trivial = the history contains a dirty eviction, a flush write-back or a merge refill, and a read or AMO of a word stored earlier')

    def cfgs(self, r, tier): return plan(r, tier, self.n) + [(c, 60 if tier == 'quick' else 600) for c in HUGE]

    def gen(self, r, cfg):
        ops, pool = ops_general(r, cfg)
        k = r.random()
        if k < 0.3:
            for l in pool.lines[:8]:
                for a in range(0, pool.lb, pool.db): ops.append(Op(READ, l + a, 0))
        if k < 0.7: ops.append(Op(FLUSH))
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.hang(scn, res) + A.flat_data(scn, res)
        c = Cache(scn.cfg, Flat(scn.memseed))
        st, back = set(), 0
        for o in scn.ops:
            c.step(o)
            if o.type == WRITE: st.add(o.addr & ~3)
            elif (o.type == READ or o.type in AMOS) and o.addr & ~3 in st: back = 1
        nt = back and any(k in c.n for k in ('evict', 'flush_wb', 'merge_refill', 'evict_inval', 'flush_wb_inval'))
        return A.first(errs), c.n, nt


def with_init(r, cfg, ops, p=0.15):
    """Sometimes start with WRITE_INIT requests (one on two ways, lines of distinct sets on one)."""
    if r.random() >= p: return ops
    lb, db, nsets, asso = geom(cfg)
    unit = lb * nsets
    out = []
    for x in r.sample(range(nsets), r.randint(1, min(nsets, 3)) if asso == 1 else 1):
        l = r.randrange((1 << cfg[4]) // unit) * unit + x * lb
        for _ in range(r.randint(1, 3) if asso == 1 else 1):
            ln = r.choice([z for z in (0, 1, 2, 4) if z < db])
            n = ln or db
            out.append(Op(INIT, l + r.randrange(lb // n) * n, ln, rdata(r, cfg[1]), opq=r.getrandbits(cfg[5])))
    return out + ops


def init_first(scn):
    n = 0
    while n < len(scn.ops) and scn.ops[n].type == INIT: n += 1
    return all(o.type != INIT for o in scn.ops[n:])


# ------------------------------------------------------------------ C02
class C02(Base):
    pid = 'C02'
    n = 900
    rule = ('random histories with random opaques (including repeated ones), heavy stalling; non-trivial = at least 5 operations of 3 types with at least one miss and one stall or gap')

    def gen(self, r, cfg):
        ops, pool = ops_general(r, cfg, mix=r.choice(MIXES + [(30, 30, 15, 12, 13)]))
        if r.random() < 0.3:
            for o in ops: o.opq = r.getrandbits(cfg[5])
        scn = env(r, Scn(cfg, with_init(r, cfg, ops)), plain=0.1)
        scn.drain = 60
        return scn

    def legal(self, case): return init_first(case)

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.responses(scn, res) + A.hang(scn, res)
        ts = {}
        for o in scn.ops: ts[TN[o.type]] = ts.get(TN[o.type], 0) + 1
        return A.first(errs), ts, len(scn.ops) >= 5 and len(ts) >= 3 and any(e.kind == MREQ for e in res.ev)


# ------------------------------------------------------------------ C03
class C03(Base):
    pid = 'C03'
    n = 900
    rule = ('random histories over sets under pressure (1 to ways+3 lines per set), compared with a true-LRU set-associative model; '
            'non-trivial = at least one hit, one miss and one replacement')

    def cfgs(self, r, tier): return plan(r, tier, self.n)

    def gen(self, r, cfg):
        pool = Pool(r, cfg, nset=r.choice([1, 1, 2, 3]), ntag=r.choice([2, 2, 3, 3, 4, 5]))
        mix = r.choice([(60, 40, 0, 0, 0), (40, 30, 30, 0, 0), (45, 40, 5, 10, 0), (45, 40, 5, 0, 10), (40, 35, 10, 8, 7)])
        ops, _ = ops_general(r, cfg, mix=mix, pool=pool)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n = A.lru(scn, res)
        return A.first(A.hang(scn, res) + e + A.victims(scn, res)), n, 'hit' in n and 'miss' in n and ('evict' in n or 'replace_clean' in n or 'evict_inval' in n)


# ------------------------------------------------------------------ C04
class C04(Base):
    pid = 'C04'
    n = 900
    rule = ('random write-heavy histories; every write-back seen at the memory port is compared with the words stored since the line was last written back; '
            'non-trivial = at least one write-back of a partly dirty line')

    def gen(self, r, cfg):
        mix = r.choice([(20, 80, 0, 0, 0), (30, 50, 20, 0, 0), (25, 50, 0, 20, 5), (25, 50, 5, 5, 15), (25, 45, 10, 10, 10)])
        ops, _ = ops_general(r, cfg, mix=mix)
        if r.random() < 0.7: ops.append(Op(FLUSH))
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        m = A.first(e, 'wb') or A.first(e, 'flush')
        return m or A.first(A.hang(scn, res)), n, 'wb_partial' in n


# ------------------------------------------------------------------ C05
class C05(Base):
    pid = 'C05'
    n = 900
    rule = ('random histories; the exact sequence of memory requests of every operation, with their opaque tags, is compared with a write-back, write-allocate, true-LRU model; '
            'non-trivial = at least one hit without traffic, one clean refill and one dirty eviction')

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        l, m = A.lru(scn, res, traffic=True)
        return (A.first(e, 'traffic', 'amo', 'mopq', 'wbform') or A.first(l, 'traffic') or A.first(A.hang(scn, res))), m, 'hit' in m and 'miss' in m and ('evict' in m or 'evict_inval' in m)


def pokeable(ops, lb):
    return None


def with_pokes(r, cfg, ops, pool, sync, p_poke=0.7, words=None):
    """Split the history into phases around every sync operation and let another agent write memory
    words this core never stores, right before or after it."""
    stored = set()
    for o in ops:
        if o.type == WRITE:
            n = nbytes(cfg, o)
            for j in range((n + 3) // 4): stored.add((o.addr & ~3) + 4 * j)
    touched = sorted({(o.addr & ~(pool.lb - 1)) for o in ops if o.type in (READ, WRITE) or o.type in AMOS})
    cand = [l + 4 * i for l in touched for i in range(pool.lb // 4) if l + 4 * i not in stored]
    if words: cand = [w for w in cand if w in words] or cand
    out, ph = [], 0
    for o in ops:
        if o.type in sync and cand and r.random() < p_poke:
            ph += 1
            def pk():
                nonlocal ph
                for _ in range(r.randint(1, 4)): out.append(Op(WRITE, r.choice(cand), 4, r.getrandbits(32), core=1, phase=ph))
                ph += 1
            before = r.random() < 0.5
            if before: pk()
            o.phase = ph
            out.append(o)
            if not before:
                ph += 1
                pk()
        else:
            o.phase = ph
            out.append(o)
    return out


def poke_free(scn):
    """While shrinking: no other agent may write a word this core stores."""
    st = set()
    for o in scn.ops:
        if o.core == 0 and o.type == WRITE:
            for j in range((nbytes(scn.cfg, o) + 3) // 4): st.add((o.addr & ~3) + 4 * j)
    return all(o.core == 0 or o.addr & ~3 not in st for o in scn.ops)


# ------------------------------------------------------------------ C06
class C06(Base):
    pid = 'C06'
    n = 900
    rule = ('random histories with frequent FLUSH (also repeated, after INV, on empty and on fully dirty caches) followed by re-accesses; '
            'non-trivial = a FLUSH that wrote back at least one line and an access after a FLUSH')

    def gen(self, r, cfg):
        k = r.random()
        if k < 0.25:       # fill the whole cache with dirty lines, or a random part of it
            pool = Pool(r, cfg)
            ops = []
            base = r.randrange(1 << cfg[4]) // pool.tagunit * pool.tagunit
            n = pool.nsets * pool.asso
            idx = list(range(n)) if r.random() < 0.5 else r.sample(range(n), r.randint(1, n))
            r.shuffle(idx)
            for i in idx[:40]:
                l = (base + i * pool.lb) % (1 << cfg[4])
                ops.append(op_line(r, cfg, l))
                pool.lines.append(l)
            ops.append(Op(FLUSH))
            ops += ops_general(r, cfg, n=r.randint(1, 10), mix=(50, 30, 5, 5, 10), pool=pool)[0]
        else:
            ops, pool = ops_general(r, cfg, mix=r.choice([(30, 45, 0, 0, 25), (25, 40, 5, 10, 20), (35, 55, 0, 0, 10), (10, 40, 0, 20, 30), (10, 30, 20, 0, 40)]))
        ops.append(Op(FLUSH))
        for l in r.sample(pool.lines, min(len(pool.lines), 3)): ops.append(Op(READ, l, 0))
        for o in ops: o.opq = r.getrandbits(cfg[5])
        gaps(r, ops)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        m = A.first(e, 'flush') or A.first(S.wbflush) or A.first(e, 'keep') or A.first(e, 'data') or A.first(A.hang(scn, res))
        f = Flat(scn.memseed)
        if not m and res.status == 0:       # complete image at the last FLUSH
            w = [i for i, o in enumerate(scn.ops) if o.type == FLUSH]
            cut = scn.copy()
            cut.ops = cut.ops[:w[-1] + 1] if w else []
            if w and w[-1] == len(scn.ops) - 1: m = A.first(A.flat_data(scn, res))
        return m, n, ('flush_one' in n or 'flush_many' in n)


def op_line(r, cfg, l):
    n = r.choice([x for x in (1, 2, 4, cfg[1] // 8) if x <= cfg[1] // 8])
    ln = 0 if n == cfg[1] // 8 else n
    return Op(WRITE, l + r.randrange(cfg[0] // 8 // n) * n, ln, rdata(r, cfg[1]))


# ------------------------------------------------------------------ C07
class C07(Base):
    pid = 'C07'
    n = 900
    rule = ('random histories with frequent INV; around an INV another agent rewrites memory words the core does not store; '
            'non-trivial = a line that was dirty at an INV is fetched again (merge), or a poked word is read after an INV')

    def gen(self, r, cfg):
        ops, pool = ops_general(r, cfg, n=r.randint(6, 50), mix=r.choice([(45, 35, 0, 20, 0), (40, 30, 5, 20, 5), (30, 50, 0, 20, 0), (60, 15, 0, 25, 0), (30, 35, 20, 15, 0)]))
        if r.random() < 0.7: ops = with_pokes(r, cfg, ops, pool, (INV,))
        ops.append(Op(FLUSH, phase=ops[-1].phase + 1))
        return env(r, Scn(cfg, ops))

    def legal(self, case): return poke_free(case)

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        m = A.first(e, 'inv') or A.first(e, 'data') or A.first(e, 'wb') or A.first(e, 'flush', 'amo') or A.first([x for x in e if x[0] == 'hit']) or A.first(A.hang(scn, res))
        return m, n, 'inv_with_dirty' in n and 'merge_refill' in n or ('inv' in n or 'inv_with_dirty' in n) and 'poke' in n


# ------------------------------------------------------------------ C08
class C08(Base):
    pid = 'C08'
    n = 900
    rule = ('random AMO-heavy histories over cached (clean, dirty, invalidated) and uncached lines, with another agent rewriting the target words first; '
            'non-trivial = AMOs on at least two of: dirty cached line, clean cached line, uncached line')

    def gen(self, r, cfg):
        ops, pool = ops_general(r, cfg, n=r.randint(4, 45), mix=r.choice([(25, 25, 50, 0, 0), (20, 40, 40, 0, 0), (30, 20, 35, 15, 0), (30, 20, 35, 0, 15)]))
        if r.random() < 0.3:
            t = r.choice(AMOS)
            for o in ops:
                if o.type in AMOS: o.type = t
        if r.random() < 0.2:
            for o in ops:
                if o.type in AMOS: o.data = r.choice(EDGE)
        if r.random() < 0.5:
            ops = with_pokes(r, cfg, ops, pool, AMOS, p_poke=0.4, words={o.addr & ~3 for o in ops if o.type in AMOS})
        ops.append(Op(FLUSH, phase=ops[-1].phase + 1))
        return env(r, Scn(cfg, ops))

    def legal(self, case): return poke_free(case)

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        e2 = A.amo_data(scn, res)
        m = A.first(e, 'amo') or A.first(e2) or A.first(e, 'inv') or A.first(e, 'data') or A.first(e, 'wb') or A.first(A.hang(scn, res))
        if not m and not any(o.core for o in scn.ops): m = A.first(A.flat_data(scn, res))
        c = Cache(scn.cfg, Flat(scn.memseed))
        for o in scn.ops:
            if o.core == 0: c.step(o)
        k = [x for x in ('amo_dirty', 'amo_clean', 'amo_miss') if x in c.n]
        return m, dict(n, **{x: c.n[x] for x in k}), len(k) >= 2


# ------------------------------------------------------------------ C09
class C09(Base):
    pid = 'C09'
    n = 500
    rule = ('one random history run under two unrelated environments (ready patterns, latencies, request spacing, idle-bus junk, power-on state); '
            'responses and memory requests must be identical; non-trivial = the two runs took a different number of cycles and caused memory traffic')

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        scn = env(r, Scn(cfg, ops))
        b = env(r, Scn(cfg, ops), plain=0.1)
        gp = [o.gap for o in ops]
        if r.random() < 0.7:
            gp = [r.choice([0, 0, 1, 2, 3, 6]) for _ in ops]
        scn.x = dict(resp=b.resp, mem=b.mem, lat=b.lat, initseed=b.initseed, junk=b.junk, reset_len=b.reset_len,
                     gap=gp[0] if len(set(gp)) == 1 else -1, gaps=r.getrandbits(30))
        return scn

    def second(self, scn):
        b = scn.copy()
        x = scn.x
        b.resp, b.mem, b.lat, b.initseed, b.junk, b.reset_len = x['resp'], x['mem'], x['lat'], x['initseed'], x['junk'], x['reset_len']
        if x['gap'] < 0:
            r = random.Random(x['gaps'])
            for o in b.ops: o.gap, o.drain = r.choice([0, 0, 1, 2, 3, 6]), int(r.random() < 0.1)
        return b

    def check(self, scn, sim):
        r1, r2 = sim.run(scn), sim.run(self.second(scn))
        m = A.first(A.hang(scn, r1) + A.hang(scn, r2))

        def hist(res):
            rs = [(e.a, e.b, e.c, e.d, e.data) for e in res.ev if e.kind == RESP]
            ms = []
            for e in res.ev:
                if e.kind != MREQ: continue
                d = 0
                if e.a == WRITE:
                    for i in range(scn.cfg[0] // 32):
                        if e.mask >> i & 1: d |= (e.data >> 32 * i & M32) << 32 * i
                elif e.a in AMOS: d = e.data & M32
                ms.append((e.a, e.addr, e.c, e.mask if e.a == WRITE else 0, d))
            return rs, ms
        a, b = hist(r1), hist(r2)
        for n, x, y in (('response', a[0], b[0]), ('memory request', a[1], b[1])):
            for i in range(max(len(x), len(y))):
                u, v = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                if u != v and not m: m = '%s %d (type, ...) is %r in one environment and %r in the other' % (n, i, u, v)
        return m, {'different_length': int(r1.cycles != r2.cycles), 'memreqs': len(a[1])}, r1.cycles != r2.cycles and a[1]


# ------------------------------------------------------------------ C10
class C10(Base):
    pid = 'C10'
    n = 700
    rule = ('random histories in hostile environments (rare ready cycles, long latencies, both, resets before the start); an operation must be answered within a bound counted in cycles '
            'in which both outgoing channels are ready and memory owes nothing; non-trivial = memory traffic plus a stall pattern or a latency above 3')

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        scn = env(r, Scn(cfg, with_init(r, cfg, ops)), plain=0.1)
        k = r.random()
        if k < 0.3:
            n = r.choice([5, 9, 16, 33, 64])
            a, b = [0] * n, [0] * n
            j = r.randrange(n)
            a[j] = b[j] = 1
            if r.random() < 0.5:
                for i in range(n):
                    if r.random() < 0.5: (a if r.random() < 0.5 else b)[i] = 1
            scn.resp, scn.mem = [a], [b]
        if r.random() < 0.3: scn.lat = [[r.choice([1, 2, 7, 15, 40]) for _ in range(r.randint(1, 9))]]
        return scn

    def legal(self, case): return init_first(case)

    def check(self, scn, sim):
        res = sim.run(scn)
        return A.first(A.hang(scn, res)), {'memreqs': sum(e.kind == MREQ for e in res.ev), 'cycles': res.cycles}, \
            any(e.kind == MREQ for e in res.ev) and (0 in scn.resp[0] or 0 in scn.mem[0] or max(scn.lat[0]) > 3)


# ------------------------------------------------------------------ C11
class C11(Base):
    pid = 'C11'
    n = 700
    rule = ('random histories with densely varying ready signals and junk on idle message buses; every cycle the four channels are checked; '
            'non-trivial = at least 3 cycles with a channel held back while the cache had something to send')

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        scn = env(r, Scn(cfg, ops), plain=0.02)
        scn.junk = scn.junk or r.getrandbits(31)
        scn.drain = 40
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.proto(scn, res)
        infl = 0
        owed = 0
        for e in res.ev:
            if e.kind == ACCEPT: infl += 1
            elif e.kind == RESP:
                if infl == 0: errs.append(('proto', 'response without a request: %r' % e))
                infl -= 1
            elif e.kind == MREQ and infl <= 0: errs.append(('proto', 'memory request with nothing in flight: %r' % e))
        errs += A.hang(scn, res) + A.responses(scn, res) + A.lru(scn, res, traffic=True)[0]
        held = sum(1 for a in (scn.resp[0], scn.mem[0]) if 0 in a)
        return A.first(errs), {'cycles': res.cycles, 'stalling_channels': held}, held and res.cycles > len(scn.ops) + 10


# ------------------------------------------------------------------ C12
class C12(Base):
    pid = 'C12'
    n = 800
    rule = ('random histories on random power-on contents, interrupted by 1 to 4 resets at random points (also back to back, also during initialisation, misses, INV and FLUSH); '
            'non-trivial = a reset that hit an operation in flight or a cache holding dirty lines, followed by at least two operations')

    def gen(self, r, cfg):
        ops, pool = ops_general(r, cfg, n=r.randint(6, 60))
        scn = env(r, Scn(cfg, ops))
        scn.initseed = r.getrandbits(29) + 1
        n = r.randint(1, 4)
        at = sorted(r.randrange(len(ops)) for _ in range(n))
        scn.resets = [[a, r.choice([0, 0, 1, 2, 3, 4, 5, 7, 10, 15]), r.choice([1, 1, 2, 3])] for a in at]
        if r.random() < 0.5: scn.ops.append(Op(FLUSH))
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.hang(scn, res) + A.audit(scn, res)[0] + A.fresh(scn, res)
        # per epoch: flat memory seen through an initially empty cache
        lb = scn.cfg[0] // 8
        mem, infl, exp, touched = {}, [], {}, set()
        ndirty = hit_inflight = 0
        f = Flat(scn.memseed)
        st = {}
        after = 0
        for e in res.ev:
            if e.kind == ACCEPT:
                o = scn.ops[e.idx]
                infl.append(e.idx)
            elif e.kind == RESET:
                if infl: hit_inflight += 1
                if any(f.word(a) != (mem[a] if a in mem else mix(a, scn.memseed)) for a in f.m): ndirty += 1
                infl, touched = [], set()
                f.m = dict(mem)
                after = 0
            elif e.kind == MREQ:
                if not infl: errs.append(('reset', 'memory request after reset with nothing in flight: %r' % e))
                if e.a == WRITE:
                    for i in range(lb // 4):
                        if e.mask >> i & 1: mem[e.addr + 4 * i] = e.data >> 32 * i & M32
                    if e.addr & ~(lb - 1) not in touched and (not infl or scn.ops[infl[0]].addr & ~(lb - 1) != e.addr & ~(lb - 1)):
                        errs.append(('reset', 'write-back of line %x, which was not used since reset' % e.addr))
                elif e.a in AMOS: mem[e.addr & ~3] = amo_fn(e.a, mem[e.addr & ~3] if e.addr & ~3 in mem else mix(e.addr & ~3, scn.memseed), e.data & M32)
            elif e.kind == RESP:
                if not infl:
                    errs.append(('reset', 'response after reset without a request: %r' % e)); continue
                i = infl.pop(0)
                o = scn.ops[i]
                after += 1
                L = o.addr & ~(lb - 1)
                if o.opq != e.b or o.type != e.a: errs.append(('reset', 'op %d %r answered by %r' % (i, o, e)))
                if o.type in (READ, WRITE):
                    if e.c and L not in touched: errs.append(('reset', 'op %d %r hit in a cache that should be empty' % (i, o)))
                    touched.add(L)
                if o.type == READ:
                    d = f.read(o.addr, nbytes(scn.cfg, o))
                    if d != e.data: errs.append(('reset', 'op %d %r returned %x, expected %x' % (i, o, e.data, d)))
                elif o.type == WRITE:
                    n = nbytes(scn.cfg, o)
                    f.write(o.addr, n, o.data & ((1 << (32 if o.len == 3 else 8 * n)) - 1))
                elif o.type in AMOS:
                    if f.word(o.addr) != e.data: errs.append(('reset', 'op %d %r returned %x, expected %x' % (i, o, e.data, f.word(o.addr))))
                    f.write(o.addr, 4, amo_fn(o.type, f.word(o.addr), o.data & M32))
                elif o.type == FLUSH and not any(x[0] == 'reset' for x in errs):
                    for a in f.m:
                        if f.word(a) != (mem[a] if a in mem else mix(a, scn.memseed)):
                            errs.append(('reset', 'flush (op %d) left word %x stale in memory' % (i, a))); break
        return A.first(errs), {'reset_in_flight': hit_inflight, 'reset_with_dirty': ndirty, 'resets': sum(e.kind == RESET for e in res.ev)}, \
            (hit_inflight or ndirty) and after >= 2


# ------------------------------------------------------------------ C13
class Drf:
    """Tracks, in phase order, what a data-race-free program under software coherence may touch, and what it must see.
    Word granularity. A store becomes visible to another core once the writer has flushed in an earlier phase and
    the reader has invalidated in a later phase than that flush."""

    def __init__(s, cfg, n, seed):
        s.cfg, s.n = cfg, n
        s.f = Flat(seed)
        s.lw = {}        # word -> last writer (core), or -1 when memory itself was updated
        s.fl = {}        # word -> phase of the flush that published it
        s.own = {}       # core -> set of its unflushed words
        s.inv = [-1] * n
        s.ph = 0
        s.use = {}       # word -> ('x', core) | ('r', set) | ('a', type, set)   within the phase

    def phase(s, p):
        if p != s.ph:
            s.ph = p
            s.use = {}

    def words(s, o):
        n = 4 if o.type in AMOS else nbytes(s.cfg, o)
        return [(o.addr & ~3) + 4 * j for j in range((n + 3) // 4)]

    def fresh(s, c, w):
        l = s.lw.get(w)
        if l is None or l == c: return True
        return w in s.fl and s.fl[w] < s.inv[c]

    def settled(s, c, w):
        l = s.lw.get(w)
        return l is None or l == c or (w in s.fl and s.fl[w] < s.ph)

    def ok(s, o):
        c, t = o.core, o.type
        if t in (INV, FLUSH): return True
        for w in s.words(o):
            u = s.use.get(w)
            if t == READ:
                if not s.fresh(c, w): return False
                if u and not (u[0] == 'r' or u == ('x', c)): return False
            elif t == WRITE:
                if not s.settled(c, w): return False
                n = nbytes(s.cfg, o)
                if n < 4 and not s.fresh(c, w): return False
                if u and u != ('x', c) and not (u[0] == 'r' and u[1] == {c}): return False
            else:
                if not s.settled(c, w): return False
                if u and not (u == ('x', c) or (u[0] == 'r' and u[1] == {c}) or
                              (u[0] == 'a' and (u[2] == {c} or (u[1] == t and t != ASWAP)))): return False
        return True

    def do(s, o):
        """-> expected data, or None when several cores' AMOs race for it"""
        c, t = o.core, o.type
        if t == INV: s.inv[c] = s.ph; return 0
        if t == FLUSH:
            for w in s.own.pop(c, ()): s.fl[w] = s.ph
            return 0
        ws = s.words(o)
        if t == READ:
            for w in ws:
                u = s.use.get(w)
                if u is None: s.use[w] = ('r', {c})
                elif u[0] == 'r': u[1].add(c)
            return s.f.read(o.addr, nbytes(s.cfg, o))
        if t == WRITE:
            n = nbytes(s.cfg, o)
            s.f.write(o.addr, n, o.data & ((1 << (32 if o.len == 3 else 8 * n)) - 1))
            for w in ws:
                s.use[w] = ('x', c)
                s.lw[w] = c
                s.fl.pop(w, None)
                s.own.setdefault(c, set()).add(w)
            return 0
        w = ws[0]
        u = s.use.get(w)
        old = s.f.word(w)
        s.f.write(w, 4, amo_fn(t, old, o.data & M32))
        # the AMO also publishes the core's own dirty words of that line
        lb = s.cfg[0] // 8
        for x in list(s.own.get(c, ())):
            if x // lb == w // lb:
                s.own[c].discard(x)
                s.fl[x] = s.ph
        s.lw[w] = -1
        s.fl[w] = s.ph
        if u and u[0] == 'a':
            u[2].add(c)
            return old if u[2] == {c} else None
        if u and u[0] == 'x':       # stays exclusive
            s.use[w] = ('x', c)
            s.selfamo = True
            return old
        s.use[w] = ('a', t, {c})
        return old


class C13(Base):
    pid = 'C13'
    n = 450
    rule = ('random data-race-free programs on 2 to 4 caches over one memory, phases separated by barriers, writers FLUSH before and readers INV after hand-over, '
            'false sharing of lines between cores, AMO sharing; non-trivial = a word written by one core is read by another after hand-over, and two cores hold stores to one line')

    def cfgs(self, r, tier):
        return plan(r, tier, self.n, big=0) + [(HUGE[1], 30 if tier == 'quick' else 300)]

    def gen(self, r, cfg):
        n = r.choice([2, 2, 3, 4])
        pool = Pool(r, cfg, nset=r.choice([1, 1, 2]), ntag=r.choice([1, 2, 3]))
        lines = pool.lines[:6]
        words = [l + 4 * i for l in lines for i in range(pool.lb // 4)]
        D = Drf(cfg, n, 0)
        ops = []
        db = cfg[1] // 8
        nph = r.randint(2, 7)
        pw = r.choice([0.3, 0.5, 0.7])
        pa = r.choice([0, 0, 0.1, 0.3])
        p3 = 0.4 if cfg[1] == 32 and r.random() < 0.25 else 0        # zero-extended double-word stores
        ph = 0
        for _ in range(nph):
            D.phase(ph)
            start = ph
            if r.random() < 0.85:
                for c in range(n):
                    if r.random() < 0.85:
                        o = Op(INV, core=c, phase=ph); D.do(o); ops.append(o)
            for _ in range(r.randint(1, 14)):
                c = r.randrange(n)
                k = r.random()
                for _try in range(5):
                    w = r.choice(words)
                    if k < pa: o = Op(r.choice(AMOS), w, amo_len(cfg), rdata(r, 32))
                    else:
                        ln = 3 if k < pa + pw and p3 and r.random() < p3 else r.choice(sizes(cfg))
                        m = db if ln == 0 else 8 if ln == 3 else ln
                        a = (w // max(m, 4)) * max(m, 4)
                        if m < 4: a += r.randrange(4 // m) * m
                        o = Op(WRITE, a, ln, rdata(r, cfg[1])) if k < pa + pw else Op(READ, a, ln)
                    o.core, o.phase = c, ph
                    if D.ok(o):
                        D.do(o); ops.append(o)
                        break
            if r.random() < 0.85:
                if r.random() < 0.3:
                    ph += 1; D.phase(ph)
                for c in range(n):
                    if r.random() < 0.85:
                        o = Op(FLUSH, core=c, phase=ph); D.do(o); ops.append(o)
            ph += 1
        for c in range(n): ops.append(Op(FLUSH, core=c, phase=ph))
        for i, o in enumerate(ops): o.opq = r.getrandbits(cfg[5])
        gaps(r, ops)
        for o in ops: o.drain = 0
        return env(r, Scn(cfg, ops, ncores=n))

    def oracle(self, scn):
        """-> (legal, expected data per op, final image)"""
        D = Drf(scn.cfg, scn.ncores, scn.memseed)
        exp, fl = {}, 0
        shared = handed = 0
        wr = {}
        seen = {}
        for i, o in enumerate(scn.ops):
            D.phase(o.phase)
            if not D.ok(o): return False, None, None, 0, 0
            exp[i] = D.do(o)
            if o.type == WRITE:
                for w in D.words(o): wr[w] = o.core
                L = o.addr // (scn.cfg[0] // 8)
                seen.setdefault(L, set()).add(o.core)
                if len(seen[L]) > 1: shared = 1
            elif o.type == READ and any(wr.get(w, o.core) != o.core for w in D.words(o)): handed = 1
        amo_multi = [i for i in exp if exp[i] is None]
        # several cores on one AMO word in one phase: no single expected value for any of them
        if amo_multi:
            ks = {(scn.ops[i].phase, scn.ops[i].addr & ~3) for i in amo_multi}
            for i, o in enumerate(scn.ops):
                if o.type in AMOS and (o.phase, o.addr & ~3) in ks: exp[i] = None
        last = scn.ops[-1].phase if scn.ops else 0
        fin = {o.core for o in scn.ops if o.phase == last and o.type == FLUSH}
        return True, exp, (D.f if len(fin) == scn.ncores and all(o.type == FLUSH for o in scn.ops if o.phase == last) else None), shared, handed

    def legal(self, case):
        return self.oracle(case)[0]

    def check(self, scn, sim):
        ok, exp, image, shared, handed = self.oracle(scn)
        assert ok
        res = sim.run(scn)
        errs = A.hang(scn, res)
        for e in res.ev:
            if e.kind == RESP and e.idx in exp and exp[e.idx] is not None:
                o = scn.ops[e.idx]
                if (o.type == READ or o.type in AMOS) and e.data != exp[e.idx]:
                    errs.append(('sc3', 'op %d %r returned %x, expected %x' % (e.idx, o, e.data, exp[e.idx])))
        if res.status == 0 and image is not None:
            for a in sorted(set(image.m) | set(res.mem)):
                g = res.mem.get(a)
                if g is None: g = mix(a, scn.memseed)
                if g != image.word(a):
                    errs.append(('sc3', 'final memory word %x is %x, expected %x' % (a, g, image.word(a)))); break
        return A.first(errs), {'false_sharing': shared, 'hand_over': handed, 'cores%d' % scn.ncores: 1}, shared and handed


# ------------------------------------------------------------------ C14
class C14(Base):
    pid = 'C14'
    n = 500
    rule = ('after reset, WRITE_INIT fills every word of up to 4 lines in distinct sets (direct-mapped) or one data word as the first request (2-way), '
            'then random reads and writes inside the initialised bytes, and possibly a FLUSH; direct-mapped also with reads and writes of other sets before and between the WRITE_INITs; non-trivial = several words initialised (2-way: one) and both reads and writes afterwards')

    def gen(self, r, cfg):
        lb, db, nsets, asso = geom(cfg)
        nl = r.randint(1, min(nsets, 4)) if asso == 1 else 1
        sets = r.sample(range(nsets), nl)
        unit = lb * nsets
        nt = (1 << cfg[4]) // unit
        lines = [r.choice([0, nt - 1, r.randrange(nt)]) * unit + s * lb for s in sets]
        ops = []
        todo = []
        span = {l: (0, lb) for l in lines}
        for l in lines:
            if asso > 1:       # any later INIT is a listed known finding
                a = r.randrange(lb // db) * db
                span[l] = (a, a + db)
                todo.append((l + a, 0, db))
            elif r.random() < 0.7: todo += [(l + a, 0, db) for a in range(0, lb, db)]
            else:
                n = r.choice([x for x in (1, 2, 4) if x < db] or [4])
                todo += [(l + a, n, n) for a in range(0, lb, n)]
        if r.random() < 0.5: r.shuffle(todo)
        other = [x for x in range(nsets) if x not in sets]
        mix = asso == 1 and other and r.random() < 0.4
        if mix:
            other = r.sample(other, min(len(other), 2))
            if r.random() < 0.5: todo = todo[:r.randint(1, len(todo))]
            lines, mine = [l for l in lines if any(l <= a + l2 < l + lb for l2, a in ((0, x[0]) for x in todo))], []
            bg = lambda: self.access(r, cfg, r.choice([0, nt - 1, r.randrange(2)]) * unit + r.choice(other) * lb, 0, lb)
            for x in todo:
                while r.random() < 0.6: mine.append(bg())
                mine.append(Op(INIT, x[0], x[1], rdata(r, cfg[1])))
            ops += mine
            done = {}
            for a, _, n in todo: done.setdefault(a - a % lb, set()).update(range(a % lb, a % lb + n))
            span = {}
            for l in lines:
                w = [i for i in range(0, lb, db) if all(i + j in done[l] for j in range(db))]
                if w: i = r.choice(w); span[l] = (i, i + db)
            lines = list(span)
            todo = []
        for a, ln, n in todo: ops.append(Op(INIT, a, ln, rdata(r, cfg[1])))
        for _ in range(r.randint(2, 25)):
            if mix and (not lines or r.random() < 0.3): ops.append(bg())
            else:
                l = r.choice(lines)
                ops.append(self.access(r, cfg, l, *span[l]))
            if r.random() < 0.04: ops.append(Op(FLUSH))
        if r.random() < 0.5: ops.append(Op(FLUSH))
        for o in ops: o.opq = r.getrandbits(cfg[5])
        gaps(r, ops)
        return env(r, Scn(cfg, ops))

    def access(self, r, cfg, l, lo, hi):
        ln = r.choice(sizes(cfg))
        n = cfg[1] // 8 if ln == 0 else ln
        a = l + lo + r.randrange((hi - lo) // n) * n
        return Op(WRITE, a, ln, rdata(r, cfg[1])) if r.random() < 0.4 else Op(READ, a, ln)

    def initialised(self, case):
        """set index -> line address, for the sets whose first request is a WRITE_INIT"""
        lb, _, nsets, _ = geom(case.cfg)
        first = {}
        for o in case.ops:
            if o.type != FLUSH: first.setdefault(o.addr // lb % nsets, o.addr - o.addr % lb if o.type == INIT else None)
        return {s: l for s, l in first.items() if l is not None}

    def legal(self, case):
        lb, _, nsets, _ = geom(case.cfg)
        seen, mode, inits, own = set(), 0, set(), self.initialised(case)
        if case.cfg[3] == 1:
            for o in case.ops:
                if o.type == FLUSH: mode = 1; continue
                s = o.addr // lb % nsets
                if s not in own and o.type == INIT or s in own and own[s] != o.addr - o.addr % lb: return False
                if o.type == INIT and mode: return False
                b = range(o.addr & ~3, (o.addr + nbytes(case.cfg, o) + 3) & ~3)
                if o.type == INIT: seen |= set(range(o.addr, o.addr + nbytes(case.cfg, o)))
                elif s in own and not all(x in seen for x in b): return False
            return True
        for o in case.ops:
            if o.type == INIT:
                if mode: return False
                n = nbytes(case.cfg, o)
                if case.cfg[3] > 1 and inits: return False
                inits.add(o.addr)
                seen |= set(range(o.addr, o.addr + n))
            else: mode = 1
        return all(all(b in seen for b in range(o.addr & ~3, (o.addr + nbytes(case.cfg, o) + 3) & ~3)) for o in case.ops if o.type in (READ, WRITE))

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.hang(scn, res) + A.responses(scn, res)
        f = Flat(scn.memseed)
        lb, _, nsets, _ = geom(scn.cfg)
        own = set(self.initialised(scn).values())
        mine = lambda a: a - a % lb in own
        rs = [e for e in res.ev if e.kind == RESP]
        for i, o in enumerate(scn.ops):
            if i >= len(rs): break
            e = rs[i]
            if o.type in (INIT, WRITE):
                n = nbytes(scn.cfg, o)
                f.write(o.addr, n, o.data & ((1 << 8 * n) - 1))
            elif o.type == READ:
                d = f.read(o.addr, nbytes(scn.cfg, o))
                if d != e.data: errs.append(('init', 'op %d %r returned %x, expected %x' % (i, o, e.data, d)))
            if o.type == INIT and e.c: errs.append(('init', 'op %d %r answered with test=%d' % (i, o, e.c)))
            if o.type in (READ, WRITE) and mine(o.addr) and e.c != 1: errs.append(('init', 'op %d %r missed on an initialised line' % (i, o)))
        f, infl, owed = Flat(scn.memseed), [], set()
        for e in res.ev:
            if e.kind == ACCEPT: infl.append(e.idx)
            elif e.kind == MREQ:
                o = scn.ops[infl[0]] if infl else None
                if o is None or o.type == INIT or o.type == FLUSH and e.a != WRITE or o.type in (READ, WRITE) and (mine(o.addr) or e.a == WRITE and mine(e.addr)):
                    errs.append(('init', 'unexpected memory request %r' % e))
                elif e.a == WRITE:
                    for j in range(lb // 4):
                        if e.mask >> j & 1:
                            a = e.addr + 4 * j
                            owed.discard(a)
                            if e.data >> 32 * j & M32 != f.word(a): errs.append(('init', 'flush wrote %x to %x' % (e.data >> 32 * j & M32, a)))
            elif e.kind == RESP and infl:
                o = scn.ops[infl.pop(0)]
                n = nbytes(scn.cfg, o)
                if o.type in (INIT, WRITE): f.write(o.addr, n, o.data & ((1 << 8 * n) - 1))
                if o.type == WRITE and mine(o.addr): owed |= {(o.addr & ~3) + 4 * j for j in range((n + 3) // 4)}
                if o.type == FLUSH and owed:
                    errs.append(('init', 'flush did not write back word %x' % min(owed)))
                    owed = set()
        ni = len({o.addr // 4 for o in scn.ops if o.type == INIT})
        return A.first(errs), {'words%d' % ni: 1}, (ni >= 2 or scn.cfg[3] > 1) and any(o.type == READ for o in scn.ops) and any(o.type == WRITE for o in scn.ops)


# ------------------------------------------------------------------ C16
class C16(Base):
    pid = 'C16'
    n = 700
    rule = ('random histories with both outgoing channels always ready and one fixed memory latency; the cycle of every acceptance and response is checked against the per-operation bounds; '
            'non-trivial = back-to-back hits, a miss and an eviction, INV or FLUSH in one history')

    def cfgs(self, r, tier): return plan(r, tier, self.n)

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        if r.random() < 0.6:
            for o in ops: o.gap = o.drain = 0
        scn = env(r, Scn(cfg, ops))
        scn.resp, scn.mem, scn.lat = [[1]], [[1]], [[r.choice([1, 1, 2, 3, 5, 9, 20])]]
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.hang(scn, res)
        L, nl = scn.lat[0][0], nlines(scn.cfg)
        acc, rsp = {}, {}
        for e in res.ev:
            if e.kind == ACCEPT: acc[e.idx] = e.cyc
            elif e.kind == RESP: rsp[e.idx] = e.cyc
        if 0 in acc and acc[0] - scn.reset_len > max(nl, scn.ops[0].gap): errs.append(('time', 'first request accepted %d cycles after reset, more than the %d lines' % (acc[0] - scn.reset_len, nl)))
        c = Cache(scn.cfg, Flat(scn.memseed))
        lab = {}
        for k, o in enumerate(scn.ops):
            _, test, mr = c.step(o)
            if k not in rsp or k not in acc: break
            nw = sum(1 for m in mr if m[0] == WRITE)
            b4 = c.n.get('wr_hit_clean', 0)
            if o.type == INV: bound, kind = nl + 3, 'inv'
            elif o.type == FLUSH: bound, kind = nl + 3 + nw * (L + 3), 'flush'
            elif o.type in AMOS: bound, kind = L + 5 + nw, 'amo'
            elif test: bound, kind = 2, 'hit'
            else: bound, kind = L + 6 + nw, 'miss'
            lab[kind] = lab.get(kind, 0) + 1
            if nw: lab['writeback'] = 1
            if rsp[k] - acc[k] > bound:
                errs.append(('time', 'op %d %r (%s, %d write-backs, latency %d) answered %d cycles after acceptance, bound %d' % (k, o, kind, nw, L, rsp[k] - acc[k], bound)))
            if k + 1 in acc and not scn.ops[k + 1].gap and not scn.ops[k + 1].drain:
                nb = rsp[k] - 1 if kind != 'hit' else acc[k] + 1
                if kind == 'hit' and o.type == WRITE: nb = acc[k] + (2 if b4 > lab.get('_c', 0) else 1)
                if acc[k + 1] > nb:
                    errs.append(('time', 'op %d %r accepted in cycle %d; after op %d (%s, accepted %d, answered %d) it should be accepted by %d' % (k + 1, scn.ops[k + 1], acc[k + 1], k, kind, acc[k], rsp[k], nb)))
                if kind == 'hit' and acc[k + 1] == acc[k] + 1: lab['b2b'] = 1
            lab['_c'] = c.n.get('wr_hit_clean', 0)
        lab.pop('_c', 0)
        return A.first(errs), lab, 'b2b' in lab and 'miss' in lab and ('writeback' in lab or 'inv' in lab or 'flush' in lab)


# ------------------------------------------------------------------ C17
class C17(Base):
    pid = 'C17'
    n = 28
    cyc = 1200
    rule = ('random histories (stalls, junk, resets) run on the generated Verilog; the recorded pin-level inputs are driven into the PyMTL simulation and every output compared in every cycle; '
            'non-trivial = at least 50 cycles with memory traffic and a stall or a reset')
    assumptions = ['Two-state simulation on both sides; outputs are compared outside reset and messages only while their enable is high.']
    require_verilog = True

    def cfgs(self, r, tier):
        core = [(128, 32, 32, 1, 32, 8), (128, 32, 64, 2, 32, 8), (64, 64, 64, 2, 24, 4), (256, 32, 128, 1, 32, 8), (256, 64, 128, 2, 40, 8),
                (512, 128, 256, 1, 32, 8), (128, 128, 64, 2, 32, 16), (64, 32, 64, 1, 48, 1)]
        return plan(r, tier, self.n, core=core, extra=3, nx=1, big=0, maxlines=16) + ([((128, 32, 4096, 2, 32, 8), 3)] if tier == 'thorough' else [])

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg, n=r.choice([6, 12, 20, 30, 45]))
        scn = env(r, Scn(cfg, ops))
        scn.trace = 1
        if r.random() < 0.4:
            scn.resets = [[a, r.choice([0, 1, 2, 5, 9]), r.choice([1, 2])] for a in sorted(r.randrange(len(ops)) for _ in range(r.randint(1, 2)))]
        return scn

    def check(self, scn, sim):
        import pysim
        if isinstance(sim, pysim.PySim): return None, {}, 0
        scn.trace = 1
        res = sim.run(scn)
        try:
            d = pysim.PySim.pool.setdefault(scn.cfg, [])
            if not d: d.append(pysim.Dut(scn.cfg))
            bad = pysim.replay_trace(d[0], res.trace[:self.cyc], pysim.Fmt(scn.cfg))
        except Exception as e:
            pysim.PySim.pool.pop(scn.cfg, None)
            return 'the PyMTL simulation raises %s: %s on a history the Verilog runs' % (type(e).__name__, str(e)[:200]), {}, 0
        n = min(len(res.trace), self.cyc)
        m = sum(e.kind == MREQ for e in res.ev)
        return bad and bad[1], {'cycles': n, 'memreqs': m}, n >= 50 and m and (scn.resets or 0 in scn.resp[0] or 0 in scn.mem[0])


# ------------------------------------------------------------------ C27
def trace_labels(scn, res, rows, free):
    """The operation named in the first stage when a request (or, a cycle before, a memory response) enters, and in the last when a response or memory request leaves;
    operations move from stage to stage with every cycle in which neither the response nor the memory request channel holds them up."""
    for n in range(1, len(rows)):
        a, b = rows[n - 1], rows[n]
        if not free[n - 1] or not free[n]: continue
        if b[3] != 'ev' and b[3] != {'frw': 'flw'}.get(a[2], a[2]): return 'cycle %d: the last stage shows %r after %r in the stage before' % (n, b[3], a[2])
        m0 = a[1].split(')')[-1].strip()
        if b[3] != 'ev' and {'frw': 'flw', '': 'xxx'}.get(b[2], b[2]) != m0: return 'cycle %d: the tag stage shows %r after %r in the stage before' % (n, b[2], m0)
    infl = []
    for e in res.ev:
        if e.kind == RESET: infl = []
        if e.kind not in (ACCEPT, RESP, MREQ, MRESP) or e.cyc >= len(rows): continue
        r = rows[e.cyc]
        want = None
        if e.kind == ACCEPT:
            infl.append(e.idx)
            t = scn.ops[e.idx].type
            what, f = '%r enters' % scn.ops[e.idx], r[1]
            want = {READ: 'rd', WRITE: 'wr', INIT: 'in', INV: 'iv0', FLUSH: 'fl0'}.get(t, 'amo')
            if not f.startswith('(rdy )'): return 'cycle %d: %s, but the first stage shows state %r' % (e.cyc, what, f)
            if t in (INV, FLUSH) and e.cyc + 1 < len(rows) and not any(x.kind == RESET and x.cyc in (e.cyc, e.cyc + 1) for x in res.ev):
                n = rows[e.cyc + 1][1].lstrip('#').strip()
                if not n.startswith('(inv )' if t == INV else '(flsh)'): return 'cycle %d: %s, the first stage shows state %r in the next cycle' % (e.cyc, what, n)
        elif not infl: continue
        else:
            o = scn.ops[infl[0]]
            t = o.type
            if e.kind == RESP:
                infl.pop(0)
                what, f = '%r is answered' % o, r[3]
                want = {READ: ('rpr', 'rd')[e.c & 1], WRITE: ('rpw', 'wr')[e.c & 1], INIT: 'in', INV: 'ivp', FLUSH: 'flp'}.get(t, 'rpa')
            elif e.kind == MREQ:
                what, f = 'memory request during %r' % o, r[3]
                want = ('flr' if t == FLUSH else 'ev') if e.a == WRITE else 'amo' if e.a != READ else ('rd', 'wr')[t == WRITE]
            elif e.a != WRITE and e.cyc + 1 < len(rows) and not any(x.kind == RESET and x.cyc in (e.cyc, e.cyc + 1) for x in res.ev):
                what, f, want = 'memory answered %r in the cycle before' % o, rows[e.cyc + 1][1], 'rf' if e.a == READ else 'rpa'
        if want and not f.endswith(want): return 'cycle %d: %s, but that stage shows %r instead of %r' % (e.cyc, what, f, want)
    return None


class C27(Base):
    pid = 'C27'
    n = 28
    py_only = True
    rule = ('random histories (stalls, junk, resets) run twice on the PyMTL simulation, once printing the trace in every cycle at level 1, 2, 0 or the default; the events of both runs, and what each printed line says '
            'about the pins of its cycle and about hits, are compared; non-trivial = at least 40 traced cycles with a memory request, a response, and a busy cycle')
    assumptions = ['The trace is printed after the combinational logic settled and before the clock edge, as PyMTL simulations do.']

    def cfgs(self, r, tier):
        return plan(r, tier, self.n, core=[(128, 32, 32, 1, 32, 8), (128, 32, 64, 2, 32, 8), (64, 64, 64, 2, 24, 4), (64, 32, 32, 1, 40, 8), (128, 64, 64, 2, 32, 8), (256, 32, 128, 1, 32, 8)], extra=2, nx=1, big=0, maxlines=8)

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg, n=r.choice([6, 10, 16, 24]))
        scn = env(r, Scn(cfg, ops))
        scn.x = {'level': r.choice([1, 1, 2, 2, None, 0])}
        if r.random() < 0.3:
            scn.resets = [[a, r.choice([0, 1, 2, 5, 9]), r.choice([1, 2])] for a in sorted(r.randrange(len(ops)) for _ in range(r.randint(1, 2)))]
        return scn

    def check(self, scn, sim):
        import pysim
        level = scn.x['level']
        plain = sim.run(scn, 3000)
        pool = pysim.PySim.pool[sim.cfg]
        t = pysim.TraceDut(pool[0], level)
        old, pool[0] = pool[0], t
        try: res = sim.run(scn, 3000)
        except pysim.TraceFailed as e:
            return str(e), {}, 0
        finally: pool[0] = old
        k = lambda ev: [tuple(getattr(e, n) for n in e.__slots__) for e in ev]
        if k(plain.ev) != k(res.ev):
            a, b = k(plain.ev), k(res.ev)
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return 'printing the trace changes the run: %r becomes %r' % (plain.ev[i:i + 1], res.ev[i:i + 1]), {}, 0
        busy = mreq = 0
        for n, ((rdy, re, me, pe, qe, free), (mq, mp), x, rst) in enumerate(t.lines):
            if not isinstance(x, str): return 'cycle %d: the trace is %r' % (n, x), {}, 0
            busy += not rdy
            mreq += me
            if level == 0:
                if x: return 'cycle %d: level 0 prints %r' % (n, x), {}, 0
                continue
            if '\n' in x: return 'cycle %d: the trace is not one line: %r' % (n, x), {}, 0
            if level == 1:
                p = re_ansi.sub('', x).split('|')
                if len(p) != 5: return 'cycle %d: the pipeline trace has %d fields: %r' % (n, len(p), x), {}, 0
                if rst: continue
                for what, on, got in (('memory response', pe, p[0] == '>'), ('memory request', me, p[4] == '>'), ('request port busy', not rdy, p[1][:1] == '#')):
                    if bool(on) != got: return 'cycle %d: %s is %d, the trace says %d: %r' % (n, what, bool(on), got, x), {}, 0
            else:
                if me and mq not in x: return 'cycle %d: the memory request %s is not in the trace %r' % (n, mq, x), {}, 0
                if pe and mp not in x: return 'cycle %d: the memory response %s is not in the trace %r' % (n, mp, x), {}, 0
        if level == 1:
            # a read or write shown in the tag stage is green exactly when its response will report a hit
            acc, seen = {}, {}
            for e in res.ev:
                if e.kind == ACCEPT: acc[e.idx] = e.cyc
                elif e.kind == RESP and e.idx in acc and scn.ops[e.idx].type in (READ, WRITE):
                    nxt = acc[e.idx] + 1
                    if nxt >= len(t.lines): continue
                    x = t.lines[nxt][2].split('|')[2]
                    if (' rd', ' wr')[scn.ops[e.idx].type] not in x: return 'cycle %d: op %d (%r) is not shown in the tag stage: %r' % (nxt, e.idx, scn.ops[e.idx], x), {}, 0
                    if ('\x1b[32m' in x) != bool(e.c): return 'cycle %d: op %d (%r) is answered with test=%d but shown as %r' % (nxt, e.idx, scn.ops[e.idx], e.c, x), {}, 0
            err = trace_labels(scn, res, [[f.strip() for f in re_ansi.sub('', l[2]).split('|')] for l in t.lines], [l[0][5] and not l[3] for l in t.lines])
            if err: return err, {}, 0
        return None, {'cycles': len(t.lines), 'busy': busy, 'memreqs': mreq, 'level %s' % level: 1}, len(t.lines) >= 40 and busy and mreq


# ------------------------------------------------------------------ C15
class C15(Base):
    pid = 'C15'
    n = 900
    rule = ('random histories with 32-bit request data and frequent stores of len 3 (zero-extended double word), mixed with 1/2/4-byte accesses to the same double words, evictions, AMO, INV and FLUSH; '
            'non-trivial = a len-3 store whose upper word is later read or written back')

    def cfgs(self, r, tier):
        return plan(r, tier, self.n, core=[(64, 32, 32, 1, 32, 8), (64, 32, 64, 2, 32, 8), (128, 32, 32, 1, 32, 8), (128, 32, 64, 2, 32, 8),
                                           (256, 32, 128, 2, 32, 8), (512, 32, 512, 1, 40, 4)], extra=6, flt=lambda c: c[1] == 32, dbw=(32,))

    def gen(self, r, cfg):
        pool = Pool(r, cfg, nset=r.choice([1, 1, 2]), ntag=r.choice([1, 2, 3, 4]))
        ops = []
        mix = r.choice([(40, 20, 40, 0, 0, 0), (30, 25, 30, 5, 5, 5), (30, 15, 30, 0, 15, 10), (30, 20, 35, 15, 0, 0)])
        for k in r.choices(range(6), weights=mix, k=r.randint(3, 50)):
            if k == 0: o = op_rw(r, cfg, pool, 0)
            elif k == 1: o = op_rw(r, cfg, pool, 1)
            elif k == 2: o = op_rw(r, cfg, pool, 1, [3])
            elif k == 3: o = op_amo(r, cfg, pool)
            elif k == 4: o = Op(INV)
            else: o = Op(FLUSH)
            o.opq = r.getrandbits(cfg[5])
            ops.append(o)
        if r.random() < 0.8: ops.append(Op(FLUSH))
        gaps(r, ops)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n, S = A.audit(scn, res)
        m = A.first(A.flat_data(scn, res)) or A.first(e, 'wb', 'flush') or A.first(A.responses(scn, res)) or A.first(A.hang(scn, res))
        up, nt = set(), 0
        for o in scn.ops:
            if o.type == WRITE and o.len == 3: up.add(o.addr + 4)
            elif o.type in (READ,) and o.addr & ~3 in up or o.type == FLUSH and up: nt = 1
        return m, n, nt


# ------------------------------------------------------------------ C20
class C20(Base):
    pid = 'C20'
    n = 500
    rule = ('every access size at every aligned offset of a line, reads and writes, in random order and in dirty/clean/merged line states, many line and data widths; '
            'non-trivial = at least one sub-word store followed by a wider read of the same bytes')

    def cfgs(self, r, tier):
        core = [(64, 32, 32, 1, 32, 8), (128, 32, 64, 2, 32, 8), (256, 32, 64, 1, 32, 8), (512, 32, 128, 1, 32, 8), (64, 64, 32, 2, 32, 8), (128, 64, 32, 1, 32, 8),
                (256, 64, 128, 2, 32, 8), (512, 64, 128, 1, 32, 8), (128, 128, 64, 2, 32, 8), (256, 128, 64, 1, 32, 8), (512, 128, 256, 2, 32, 8)]
        return plan(r, tier, self.n, core=core, extra=8)

    def gen(self, r, cfg):
        pool = Pool(r, cfg, nset=1, ntag=r.choice([1, 1, 2, 3]))
        szs = sizes(cfg)
        slots = [(ln, a) for ln in szs for a in range(0, pool.lb, cfg[1] // 8 if ln == 0 else ln)]
        r.shuffle(slots)
        ops = []
        pw = r.choice([0.3, 0.5, 0.7])
        for ln, a in slots[:r.choice([10, 40, 100])]:
            l = r.choice(pool.lines)
            ops.append(Op(WRITE, l + a, ln, r.getrandbits(cfg[1])) if r.random() < pw else Op(READ, l + a, ln, r.getrandbits(cfg[1]) if r.random() < 0.2 else 0))
            if r.random() < 0.3:      # look at the surroundings
                b = a // (cfg[1] // 8) * (cfg[1] // 8)
                ops.append(Op(READ, l + b, 0))
            if r.random() < 0.04: ops.append(Op(r.choice([INV, FLUSH])))
        for l in pool.lines[:2]:
            for a in range(0, pool.lb, cfg[1] // 8): ops.append(Op(READ, l + a, 0))
        for o in ops: o.opq = r.getrandbits(cfg[5])
        gaps(r, ops)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        c, sub, nt = {}, set(), 0
        for o in scn.ops:
            if o.type in (READ, WRITE):
                k = '%s%d' % (TN[o.type], o.len)
                c[k] = c.get(k, 0) + 1
                n = nbytes(scn.cfg, o)
                if o.type == WRITE and n < scn.cfg[1] // 8: sub.add(o.addr)
                elif o.type == READ and any(o.addr <= a < o.addr + n for a in sub): nt = 1
        return A.first(A.flat_data(scn, res)) or A.first(A.hang(scn, res)), c, nt


# ------------------------------------------------------------------ C21
class C21(Base):
    pid = 'C21'
    n = 120
    rule = ('whole-cache working sets: every line of the cache loaded once with lines of random tags, all must then hit and hold their own data; one line too many in a set evicts the least recently used; '
            'addresses one bit apart are never confused; non-trivial = the working set fills every way of every set')

    def cfgs(self, r, tier):
        core = [(128, 32, 32, 1, 32, 8), (128, 32, 256, 2, 32, 8), (64, 32, 256, 1, 32, 8), (64, 32, 512, 2, 16, 8), (256, 64, 512, 2, 40, 8), (512, 128, 1024, 1, 32, 8),
                (128, 64, 1024, 2, 64, 8), (128, 128, 128, 1, 20, 8), (256, 32, 64, 2, 32, 8) if False else (256, 32, 128, 2, 33, 8), (512, 32, 256, 2, 32, 8)]
        return plan(r, tier, self.n, core=core, extra=8, big=3, maxlines=128) + [(c, 8 if tier == 'quick' else 60) for c in HUGE]

    def gen(self, r, cfg):
        lb, db, nsets, asso = geom(cfg)
        unit = lb * nsets
        nt = (1 << cfg[4]) // unit
        nl = nsets * asso
        ops = []
        full = nl <= 64 or r.random() < (0.4 if nl <= 256 else 0.3)
        sets = list(range(nsets)) if full else sorted(r.sample(range(nsets), min(nsets, 24)))
        ws = {}
        common = r.random() < 0.4
        tags = [r.randrange(nt) for _ in range(asso)] if common else None
        if common and len(set(tags)) < asso: tags = list(range(asso))
        for s in sets:
            t = tags or r.sample(range(nt), asso) if nt < 1 << 30 else tags or [r.randrange(nt) for _ in range(asso)]
            if r.random() < 0.3 and asso == 2: t = [t[0], t[0] ^ 1 << r.randrange((nt - 1).bit_length())]
            if len(set(x % nt for x in t)) < asso: t = [(t[0] + j) % nt for j in range(asso)]
            ws[s] = [x % nt for x in t]
        ls = [(t * unit + s * lb) for s in sets for t in ws[s]]
        if r.random() < 0.6: r.shuffle(ls)
        rd = lambda l: Op(READ, l + r.randrange(lb // db) * db, 0)
        for l in ls:
            ops.append(Op(WRITE, l + r.randrange(lb // db) * db, 0, r.getrandbits(cfg[1])) if r.random() < 0.6 else rd(l))
        l2 = list(ls)
        r.shuffle(l2)
        for l in l2: ops.append(rd(l))
        for _ in range(r.randint(0, 12)):      # overflow a few sets, flip single address bits
            l = r.choice(ls)
            b = r.randrange(lb.bit_length() - 1, cfg[4])
            ops.append(rd(l ^ 1 << b))
            if r.random() < 0.5: ops.append(Op(WRITE, (l ^ 1 << b), 0, r.getrandbits(cfg[1])))
            ops.append(rd(l))
        if r.random() < 0.5: ops.append(Op(FLUSH))
        for o in ops: o.opq = r.getrandbits(cfg[5])
        scn = env(r, Scn(cfg, ops), plain=0.5)
        scn.x = dict(full=int(full))
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n = A.lru(scn, res)
        return A.first(A.flat_data(scn, res)) or A.first(e) or A.first(A.hang(scn, res)), n, scn.x['full']


# ------------------------------------------------------------------ C23
class C23(Base):
    pid = 'C23'
    n = 900
    rule = ('random histories against memories with long and varying latencies; every acceptance, response and memory request is checked against the memory requests still unanswered; '
            'non-trivial = a write-back or FLUSH write-back whose acknowledgement took at least 3 cycles, and a later operation')

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg, mix=r.choice(MIXES + [(25, 45, 5, 5, 20), (20, 40, 20, 0, 20)]))
        scn = env(r, Scn(cfg, ops))
        if r.random() < 0.8: scn.lat = [[r.choice([1, 2, 3, 4, 5, 7, 11, 18]) for _ in range(r.randint(1, 9))]]
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        errs = A.hang(scn, res)
        out, infl, wb, slow = [], [], 0, 0
        for e in res.ev:
            if e.kind == ACCEPT:
                if out: errs.append(('block', 'op %d %r accepted while %s is unanswered' % (e.idx, scn.ops[e.idx], out)))
                infl.append(e.idx)
            elif e.kind == MREQ:
                o = scn.ops[infl[0]] if infl else None
                if o and o.type == FLUSH and out: errs.append(('block', 'FLUSH sent %r before the previous write-back was acknowledged' % e))
                elif len(out) + 1 > 2 or (out and (out[0] != 'wr' or e.a == WRITE)): errs.append(('block', '%r sent while %s is unanswered' % (e, out)))
                out.append(TN.get(e.a, e.a))
                if e.a == WRITE: wb = e.cyc
            elif e.kind == MRESP:
                if out and out[0] == 'wr' and e.cyc - wb >= 3: slow = 1
                if out: out.pop(0)
            elif e.kind == RESP and infl:
                i = infl.pop(0)
                if out: errs.append(('block', 'op %d %r answered while %s is unanswered' % (i, scn.ops[i], out)))
        return A.first(errs), {'slow_writeback': slow}, slow and len(scn.ops) > 2


# ------------------------------------------------------------------ C24
class C24(Base):
    pid = 'C24'
    n = 300
    require_verilog = True
    plain_build = True
    rule = ('random option values given to translate.py (some with --replace-sram); the Verilog it writes is built and random histories are run against the reference cache of the requested '
            'geometry; non-trivial = at least one hit, one miss and one replacement or sub-line access')
    assumptions = Base.assumptions + ['Options are powers of two in the supported ranges; --replace-sram is used with the geometries its wrapper has macros for; macros the repository has no behavioural model of (256x25, 512x128) are modelled here.']

    def cfgs(self, r, tier):
        core = [(128, 32, 64, 2, 32, 8), (256, 64, 256, 1, 40, 4), (64, 32, 128, 2, 24, 16), (512, 128, 512, 2, 32, 8)]
        return plan(r, tier, self.n, core=core, extra=8, big=0) + [((128, 32, 4096, 2, 32, 8), 200), ((128, 32, 4096, 1, 32, 8), 100), ((128, 32, 8192, 2, 32, 8), 60)]

    def build(self, cfg, wd):
        # 4 kB and 8 kB, 128-bit lines: the arrays the SRAM wrapper has macros for
        return build.build_cli_sram(cfg, wd) if cfg[2] >= 4096 and cfg[0] == 128 else build.build_cli(cfg, wd)

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n = A.lru(scn, res, traffic=True)
        return A.first(A.hang(scn, res)) or A.first(A.responses(scn, res)) or A.first(A.flat_data(scn, res)) or A.first(e), n, 'hit' in n and 'miss' in n


# ------------------------------------------------------------------ C25
class C25(Base):
    pid = 'C25'
    n = 700
    rule = ('random histories with dense stalls on a cache whose SRAM arrays are replaced by ones that drive noise in every cycle except the one after a read (and after a write); '
            'responses and memory requests are compared with the reference cache; non-trivial = a stalled channel, a hit and a write-back or refill')
    assumptions = Base.assumptions + ['The array class SramGenericPRTL is replaced by lib/pulse.py wherever a module refers to it; where that is not possible the ordinary arrays are used.']

    def cfgs(self, r, tier): return plan(r, tier, self.n)

    def build(self, cfg, wd): return build.build_pulse(cfg, wd)

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        scn = env(r, Scn(cfg, ops), plain=0.05)
        if r.random() < 0.7:
            for o in ops: o.gap = o.drain = 0
        return scn

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n = A.lru(scn, res, traffic=True)
        w, _, _ = A.audit(scn, res)
        m = A.first(A.hang(scn, res)) or A.first(A.responses(scn, res)) or A.first(A.flat_data(scn, res)) or A.first(e) or A.first(w, 'wb', 'amo', 'flush')
        return m, n, 'hit' in n and (0 in scn.resp[0] or 0 in scn.mem[0]) and 'miss' in n


# ------------------------------------------------------------------ C28
class C28(Base):
    pid = 'C28'
    n = 300
    require_verilog = True
    plain_build = True
    rule = ('designs with three caches, two of them differing from the middle one in one parameter (opaque, address, request or line width, size, ways) or two; the design is translated as a whole, '
            'and random histories are run on the middle cache as that Verilog defines it, against the reference cache of its own configuration; non-trivial = at least one hit, one miss and one replacement or sub-line access')
    assumptions = Base.assumptions + ['The caches of one design are connected to separate ports; interference through the shared Verilog definitions and the shared process is what is looked for.']

    def cfgs(self, r, tier): return plan(r, tier, self.n, extra=8, big=0)

    def build(self, cfg, wd): return build.build_joint(cfg, wd)

    def gen(self, r, cfg):
        ops, _ = ops_general(r, cfg)
        return env(r, Scn(cfg, ops))

    def check(self, scn, sim):
        res = sim.run(scn)
        e, n = A.lru(scn, res, traffic=True)
        w, _, _ = A.audit(scn, res)
        m = A.first(A.hang(scn, res)) or A.first(A.responses(scn, res)) or A.first(A.flat_data(scn, res)) or A.first(e) or A.first(w, 'wb', 'amo', 'flush')
        return m, n, 'hit' in n and 'miss' in n


DYN = {c.pid: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C20, C21, C23, C24, C25, C27, C28)}
