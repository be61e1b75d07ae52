"""Scenario objects and the verilated back end (ctypes)."""
import ctypes, struct, hashlib

READ, WRITE, INIT, AADD, AAND, AOR, ASWAP, AMIN, AMINU, AMAX, AMAXU, AXOR = range(12)
INV, FLUSH = 14, 15
AMOS = tuple(range(3, 12))
TN = {0: 'rd', 1: 'wr', 2: 'in', 3: 'add', 4: 'and', 5: 'or', 6: 'swap', 7: 'min', 8: 'minu',
      9: 'max', 10: 'maxu', 11: 'xor', 14: 'inv', 15: 'flush'}
ACCEPT, RESP, MREQ, MRESP, PROTO, END, RESET, POKE = range(1, 9)
M32 = 0xffffffff
M64 = 0xffffffffffffffff


def mix(a, seed):
    x = (a * 0x9E3779B97F4A7C15 + seed * 0xD1B54A32D192ED03 + 0x1234567) & M64
    x ^= x >> 29
    x = x * 0xBF58476D1CE4E5B9 & M64
    x ^= x >> 32
    x = x * 0x94D049BB133111EB & M64
    x ^= x >> 29
    return x & M32


def amo_fn(t, m, a):
    sm = m - (1 << 32) if m >> 31 else m
    sa = a - (1 << 32) if a >> 31 else a
    if t == AADD: return (m + a) & M32
    if t == AAND: return m & a
    if t == AOR: return m | a
    if t == ASWAP: return a
    if t == AMIN: return m if sm < sa else a
    if t == AMINU: return min(m, a)
    if t == AMAX: return m if sm > sa else a
    if t == AMAXU: return max(m, a)
    if t == AXOR: return m ^ a
    raise ValueError(t)


class Op:
    """One processor request (core < ncores) or a direct memory write (core == ncores)."""
    __slots__ = ('core', 'type', 'opq', 'addr', 'len', 'data', 'gap', 'phase', 'drain')

    def __init__(s, type, addr=0, len=0, data=0, opq=0, gap=0, core=0, phase=0, drain=0):
        s.type, s.addr, s.len, s.data, s.opq, s.gap, s.core, s.phase, s.drain = type, addr, len, data, opq, gap, core, phase, drain

    def j(s):
        return [s.type, s.addr, s.len, s.data, s.opq, s.gap, s.core, s.phase, s.drain]

    def copy(s):
        return Op(*s.j())

    def __repr__(s):
        return '%s%s a=%x len=%d d=%x q=%x%s%s%s' % ('c%d ' % s.core if s.core else '', TN.get(s.type, 'poke'), s.addr, s.len,
                                                     s.data, s.opq, ' gap=%d' % s.gap if s.gap else '',
                                                     ' ph=%d' % s.phase if s.phase else '', ' drain' if s.drain else '')


class Scn:
    """A complete test case: operations plus the behaviour of the environment."""

    def __init__(s, cfg, ops, ncores=1, resp=None, mem=None, lat=None, memseed=1, initseed=0, reset_len=2, junk=0,
                 resets=(), trace=0, drain=24, x=None):
        s.cfg, s.ops, s.ncores = tuple(cfg), ops, ncores
        s.resp = resp or [[1]] * ncores      # ready patterns, repeated
        s.mem = mem or [[1]] * ncores
        s.lat = lat or [[1]] * ncores
        s.memseed, s.initseed, s.reset_len, s.junk, s.resets, s.trace, s.drain = memseed, initseed, reset_len, junk, list(resets), trace, drain
        s.x = x or {}      # property-specific extras, JSON

    def j(s):
        return dict(cfg=list(s.cfg), ops=[o.j() for o in s.ops], ncores=s.ncores, resp=s.resp, mem=s.mem, lat=s.lat,
                    memseed=s.memseed, initseed=s.initseed, reset_len=s.reset_len, junk=s.junk,
                    resets=[list(r) for r in s.resets], drain=s.drain, x=s.x)

    @staticmethod
    def from_j(d):
        d = dict(d)
        ops = [Op(*o) for o in d.pop('ops')]
        cfg = tuple(d.pop('cfg'))
        return Scn(cfg, ops, **d)

    def copy(s):
        return Scn.from_j(s.j())

    def key(s):
        return hashlib.blake2b(repr((s.cfg, [o.j() for o in s.ops], s.resp, s.mem, s.lat, s.initseed, s.resets, s.x)).encode(), digest_size=8).digest()


def nlines(cfg):
    return cfg[2] * 8 // cfg[0]


def stall_limit(cfg):
    return 8 * nlines(cfg) + 200


EVS = struct.Struct('<8IQ2I16I')
OPS = struct.Struct('<8IQ4I')
SCS = struct.Struct('<8I8I32I4I')
HDS = struct.Struct('<12I8I8I8I')
EVCAP = 60000
TRW = 9 + 160
MEMCAP = 20000


def pack_bits(p):
    w = [0] * 8
    for i, b in enumerate(p):
        if b:
            w[i >> 5] |= 1 << (i & 31)
    return w


class Ev:
    __slots__ = ('kind', 'cyc', 'core', 'a', 'b', 'c', 'd', 'addr', 'mask', 'idx', 'data')

    def __repr__(e):
        if e.kind == ACCEPT: return '%5d c%d accept op%d' % (e.cyc, e.core, e.idx)
        if e.kind == RESP: return '%5d c%d resp   %s q=%x test=%d len=%d d=%x' % (e.cyc, e.core, TN.get(e.a, e.a), e.b, e.c, e.d, e.data)
        if e.kind == MREQ: return '%5d c%d memreq %s a=%x len=%d mask=%x d=%x' % (e.cyc, e.core, TN.get(e.a, e.a), e.addr, e.c, e.mask, e.data)
        if e.kind == MRESP: return '%5d c%d memresp %s' % (e.cyc, e.core, TN.get(e.a, e.a))
        return '%5d c%d kind%d a=%d b=%d' % (e.cyc, e.core, e.kind, e.a, e.b)


class Result:
    __slots__ = ('ev', 'status', 'left', 'mem', 'cycles', 'trace')


class Sim:
    def __init__(s, so):
        s.lib = ctypes.CDLL(so)
        o = (ctypes.c_int * 8)()
        s.lib.cfg(o)
        s.clw, s.dbw, s.abw, s.obw = o[0:4]
        assert tuple(o[4:8]) == (OPS.size, SCS.size, HDS.size, EVS.size), tuple(o)
        s.evbuf = ctypes.create_string_buffer(EVS.size * EVCAP)
        s.mem = (ctypes.c_uint64 * (2 * MEMCAP))()
        s.tr = None

    def run(s, scn):
        n = len(scn.ops)
        buf = bytearray()
        for o in scn.ops:
            d = o.data
            buf += OPS.pack(o.core, o.type, o.len, o.drain, o.opq & M32, o.gap, o.phase, 0, o.addr, d & M32, d >> 32 & M32, d >> 64 & M32, d >> 96 & M32)
        scb = bytearray()
        for c in range(scn.ncores):
            lat = scn.lat[c]
            scb += SCS.pack(*pack_bits(scn.resp[c]), *pack_bits(scn.mem[c]), *(lat + [1] * (32 - len(lat))), len(scn.resp[c]), len(scn.mem[c]), len(lat), 0)
        rs = scn.resets
        pad = [0] * (8 - len(rs))
        sl = stall_limit(scn.cfg)
        h = HDS.pack(scn.ncores, n, scn.memseed & M32, scn.initseed & 0x3fffffff, scn.reset_len, scn.junk & M32,
                     1000000, sl, scn.drain, len(rs), 1 if scn.trace else 0, 0,
                     *([r[0] for r in rs] + pad), *([r[1] for r in rs] + pad), *([r[2] for r in rs] + pad))
        if scn.trace and s.tr is None:
            s.tr = (ctypes.c_uint32 * (TRW * 40000))()
        ntr, nm = ctypes.c_int(0), ctypes.c_int(0)
        ne = s.lib.run(h, bytes(buf), bytes(scb), s.evbuf, EVCAP, s.tr, 40000 if scn.trace else 0, ctypes.byref(ntr),
                       s.mem, MEMCAP, ctypes.byref(nm))
        nw, dw = s.clw // 32, (s.dbw + 31) // 32
        r = Result()
        r.ev = ev = []
        raw = memoryview(s.evbuf)[:ne * EVS.size]
        for t in EVS.iter_unpack(raw):
            e = Ev()
            e.kind, e.cyc, e.core, e.a, e.b, e.c, e.d = t[:7]
            e.addr, e.mask, e.idx = t[8:11]
            if e.kind == MREQ:
                v = 0
                for i in range(nw):
                    v |= t[11 + i] << 32 * i
                e.data = v
            elif e.kind == RESP:
                v = 0
                for i in range(dw):
                    v |= t[11 + i] << 32 * i
                e.data = v
            else:
                e.data = t[11]
            ev.append(e)
        end = ev.pop()
        r.status, r.left, r.cycles = end.a, end.b, end.cyc
        r.mem = {s.mem[2 * i]: s.mem[2 * i + 1] for i in range(nm.value)}
        if scn.trace:
            r.trace = [list(s.tr[i * TRW:(i + 1) * TRW]) for i in range(ntr.value)]
        return r
