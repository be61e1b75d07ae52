"""Reference models, written from the documentation, independent of the RTL."""
from sim import *


def geom(cfg):
    clw, dbw, nb, asso = cfg[:4]
    return clw // 8, dbw // 8, nb * 8 // clw // asso, asso


class Flat:
    """What a processor expects: one flat memory; caches are invisible."""

    def __init__(s, seed):
        s.seed, s.m = seed, {}

    def word(s, a):
        v = s.m.get(a)
        return mix(a, s.seed) if v is None else v

    def read(s, a, n):
        b = a & ~3
        v, sh = 0, 0
        e = a + n
        while b < e:
            v |= s.word(b) << sh
            sh += 32
            b += 4
        return (v >> 8 * (a & 3)) & ((1 << 8 * n) - 1)

    def write(s, a, n, v):
        if n < 4:
            sh = 8 * (a & 3)
            m = ((1 << 8 * n) - 1) << sh
            b = a & ~3
            s.m[b] = (s.word(b) & ~m) | ((v << sh) & m)
        else:
            for i in range(0, n, 4):
                s.m[a + i] = v >> 8 * i & M32


def nbytes(cfg, o):
    """Bytes touched by a read or write request."""
    if o.len == 0: return cfg[1] // 8
    if o.len == 3: return 8          # zero-extended double word store
    return o.len


class Line:
    __slots__ = ('tag', 'val', 'dty')

    def __init__(s): s.tag, s.val, s.dty = None, False, 0


class Cache:
    """Set-associative, true LRU, write-back, write-allocate, one dirty bit per word.
    Produces, per request, the expected response and the memory requests it causes."""

    def __init__(s, cfg, flat):
        s.cfg, s.flat = cfg, flat
        s.lb, s.db, s.nsets, s.asso = geom(cfg)
        s.nw = s.lb // 4
        s.clear()
        s.full = (1 << s.nw) - 1
        # statistics used for classification
        s.n = {}

    def clear(s):
        s.sets = {}

    def set_of(s, a):
        la = a // s.lb
        i = la % s.nsets
        st = s.sets.get(i)
        if st is None:
            st = s.sets[i] = [Line() for _ in range(s.asso)]
        return st, la      # "tag" is the full line number

    def cnt(s, k):
        s.n[k] = s.n.get(k, 0) + 1

    def linedata(s, la):
        b = la * s.lb
        v = 0
        for i in range(s.nw):
            v |= s.flat.word(b + 4 * i) << 32 * i
        return v

    def wb(s, L):
        return (WRITE, L.tag * s.lb, 0, L.dty, s.linedata(L.tag))

    def find(s, st, la):
        for i, L in enumerate(st):
            if L.tag == la and (L.val or L.dty):
                return i
        return None

    def step(s, o):
        """-> (response data, test, list of memory requests (type, addr, len, mask, data))"""
        t = o.type
        out = []
        s.victim = None
        if t == READ or t == WRITE:
            st, la = s.set_of(o.addr)
            i = s.find(st, la)
            test = 0
            if i is None:
                L = st[0]
                s.victim = None if L.tag is None else L.tag * s.lb
                if L.dty:
                    out.append(s.wb(L))
                    s.cnt('evict_inval' if not L.val else 'evict')
                elif L.val: s.cnt('replace_clean')
                st.pop(0)
                st.append(L)
                L.tag, L.val, L.dty = la, True, 0
                out.append((READ, la * s.lb, 0, None, None))
                s.cnt('miss')
            else:
                L = st.pop(i)
                st.append(L)
                if L.val:
                    test = 1
                    s.cnt('hit')
                else:
                    out.append((READ, la * s.lb, 0, None, None))
                    L.val = True
                    s.cnt('merge_refill')
            n = nbytes(s.cfg, o)
            if t == READ:
                d = s.flat.read(o.addr, n)
                return d, test, out
            w0 = (o.addr % s.lb) // 4
            m = 0
            for k in range((n + 3) // 4): m |= 1 << (w0 + k)
            if test:
                s.cnt('wr_hit_dirty' if (L.dty & m) == m else 'wr_hit_clean')
            L.dty |= m
            s.flat.write(o.addr, n, o.data & ((1 << (32 if o.len == 3 else 8 * n)) - 1))
            return 0, test, out
        if 3 <= t <= 11:
            st, la = s.set_of(o.addr)
            i = s.find(st, la)
            if i is not None:
                L = st.pop(i)
                if L.dty:
                    out.append(s.wb(L))
                    s.cnt('amo_dirty')
                else: s.cnt('amo_clean')
                L.tag, L.val, L.dty = None, False, 0
                st.insert(0, L)
            else: s.cnt('amo_miss')
            old = s.flat.read(o.addr, 4)
            out.append((t, o.addr, 4, None, o.data & M32))
            s.flat.write(o.addr, 4, amo_fn(t, old, o.data & M32))
            return old, 0, out
        if t == INV:
            for st in s.sets.values():
                for L in st:
                    if L.val and L.dty: s.cnt('inv_dirty')
                    L.val = False
            return 0, 0, out
        if t == FLUSH:
            for st in s.sets.values():
                for L in st:
                    if L.dty:
                        s.cnt('flush_wb' if L.val else 'flush_wb_inval')
                        out.append(s.wb(L))
                        L.dty = 0
            return 0, 0, out
        raise ValueError(t)
