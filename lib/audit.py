"""Oracles over the event history of one case. Each returns the list of (category, message)."""
from sim import *
from model import *

STATUS = {1: 'no progress although requests and both ready signals keep coming', 2: 'cycle limit reached', 3: 'event limit reached',
          4: 'the simulated design does not settle'}


def fmt(op): return repr(op)


def hang(scn, res):
    if res.status:
        return [('hang', '%s; %d operations unanswered' % (STATUS[res.status], res.left))]
    return []


def responses(scn, res):
    """One response per accepted request, per core in order, echoing type, opaque and len; zero data where none is due."""
    out = []
    acc = [[] for _ in range(scn.ncores)]
    nr = [0] * scn.ncores
    for e in res.ev:
        if e.kind == ACCEPT: acc[e.core].append(e.idx)
        elif e.kind == RESP:
            n = nr[e.core]
            nr[e.core] += 1
            if n >= len(acc[e.core]):
                out.append(('resp', 'response without a request: %r' % e)); continue
            o = scn.ops[acc[e.core][n]]
            if e.a != o.type: out.append(('resp', '%r answered with type %s' % (o, TN.get(e.a, e.a))))
            elif e.b != o.opq: out.append(('resp', '%r answered with opaque %x' % (o, e.b)))
            elif e.d != o.len: out.append(('resp', '%r answered with len %d' % (o, e.d)))
            elif o.type in (WRITE, INIT, INV, FLUSH) and e.data: out.append(('resp', '%r answered with data %x' % (o, e.data)))
        elif e.kind == RESET:
            for c in range(scn.ncores):
                del acc[c][nr[c]:]
    for c in range(scn.ncores):
        if nr[c] < len(acc[c]): out.append(('resp', '%r never answered' % scn.ops[acc[c][nr[c]]]))
    return out


def flat_data(scn, res):
    """Single core, no other writer: every read and AMO sees the latest write; the image after a final FLUSH is complete."""
    f = Flat(scn.memseed)
    out = []
    rs = [e for e in res.ev if e.kind == RESP]
    for i, e in enumerate(rs):
        if i >= len(scn.ops): break
        o = scn.ops[i]
        if o.type == READ:
            d = f.read(o.addr, nbytes(scn.cfg, o))
            if e.data != d: out.append(('data', 'op %d %r returned %x, expected %x' % (i, o, e.data, d)))
        elif o.type == WRITE:
            n = nbytes(scn.cfg, o)
            f.write(o.addr, n, o.data & ((1 << (32 if o.len == 3 else 8 * n)) - 1))
        elif o.type in AMOS:
            old = f.word(o.addr)
            if e.data != old: out.append(('data', 'op %d %r returned %x, expected %x' % (i, o, e.data, old)))
            f.write(o.addr, 4, amo_fn(o.type, old, o.data & M32))
    if len(rs) < len(scn.ops): out.append(('data', 'op %d %r never answered' % (len(rs), scn.ops[len(rs)])))
    elif scn.ops and scn.ops[-1].type == FLUSH and res.status == 0:
        for a in sorted(set(f.m) | set(res.mem)):
            got = res.mem.get(a)
            if got is None: got = mix(a, scn.memseed)
            if got != f.word(a):
                out.append(('data', 'after the final flush memory word %x is %x, expected %x' % (a, got, f.word(a)))); break
    return out


class Obs:
    """What one cache holds, reconstructed from the requests it was sent and the memory traffic it was seen to cause.
    Independent of the replacement policy."""

    def __init__(s, cfg, seed):
        s.cfg, s.seed = cfg, seed
        s.lb, s.db, s.nsets, s.asso = geom(cfg)
        s.nw = s.lb // 4
        s.mem, s.dirty, s.copy, s.fetched = {}, {}, {}, set()
        s.last = {}          # set -> line of the latest read or write, while it must still be resident
        s.used = {}          # set -> lines used since the set was last emptied (all resident while they are at most the ways)
        s.flushed = {}       # set -> lines resident at the latest FLUSH and not replaced since
        s.wbflush = []       # errors of write-backs during or after a FLUSH
        s.nflush = 0

    def mw(s, a):
        v = s.mem.get(a)
        return mix(a, s.seed) if v is None else v

    def dmask(s, L):
        m = 0
        for i in range(s.nw):
            if L + 4 * i in s.dirty: m |= 1 << i
        return m


def audit(scn, res):
    """Walk the history of a single-core case. Categories: wb, traffic, data, inv, amo, flush, hit, retain."""
    cfg = scn.cfg
    S = Obs(cfg, scn.memseed)
    out = []
    infl, seg = [], []
    cnt = {}

    def err(c, m):
        out.append((c, m))
        if c == 'wb' and (S.nflush or infl and scn.ops[infl[0]].type == FLUSH): S.wbflush.append((c, m))

    def count(k): cnt[k] = cnt.get(k, 0) + 1
    for e in res.ev:
        k = e.kind
        if k == ACCEPT: infl.append(e.idx)
        elif k == POKE:
            S.mem[e.addr & ~3] = e.data
            count('poke')
        elif k == RESET:
            infl, seg = [], []
            S.dirty, S.copy, S.fetched, S.last, S.used, S.flushed, S.nflush = {}, {}, set(), {}, {}, {}, 0
            count('reset')
        elif k == MREQ:
            if not infl:
                err('traffic', 'memory request with no operation in flight: %r' % e); continue
            o = scn.ops[infl[0]]
            seg.append(e)
            L = e.addr & ~(S.lb - 1)
            if e.b != o.opq and o.type != FLUSH: err('mopq', 'memory request %r carries opaque %x, during %r' % (e, e.b, o))
            if e.a == WRITE:
                m = S.dmask(L)
                if e.addr != L: err('wb', 'write-back to unaligned address %x' % e.addr)
                if e.c: err('wb', 'write-back with len %d' % e.c)
                if e.c or e.addr != L: err('wbform', 'write-back with addr %x len %d' % (e.addr, e.c))
                if not m: err('wb', 'write-back of line %x which has no dirty word (during %r)' % (L, o))
                elif e.mask != m: err('wb', 'write-back of line %x with mask %x, dirty words are %x (during %r)' % (L, e.mask, m, o))
                for i in range(S.nw):
                    if e.mask >> i & 1:
                        w = e.data >> 32 * i & M32
                        a = L + 4 * i
                        if a in S.dirty and S.dirty[a] != w:
                            err('wb', 'write-back of word %x with %x, its value is %x (during %r)' % (a, w, S.dirty[a], o))
                        S.mem[a] = w
                        S.dirty.pop(a, None)
                count('wb_partial' if e.mask != (1 << S.nw) - 1 else 'wb_full')
            elif e.a == READ:
                c = {}
                for i in range(S.nw):
                    a = L + 4 * i
                    c[a] = S.dirty[a] if a in S.dirty else S.mw(a)
                if S.dmask(L): count('merge_refill')
                S.copy[L] = c
                S.fetched.add(L)
                if e.addr != L or e.c: err('traffic', 'refill request with addr %x len %d' % (e.addr, e.c))
            elif e.a in AMOS:
                if o.type != e.a: err('amo', '%s sent to memory during %r' % (TN[e.a], o))
                S.mem[e.addr & ~3] = amo_fn(e.a, S.mw(e.addr & ~3), e.data & M32)
            else: err('traffic', 'memory request of type %d' % e.a)
        elif k == RESP:
            if not infl: continue
            i = infl.pop(0)
            o = scn.ops[i]
            M, seg = seg, []
            _op(S, scn, i, o, e, M, err, count)
    return out, cnt, S


def _op(S, scn, i, o, e, M, err, count):
    t = o.type
    L = o.addr & ~(S.lb - 1)
    st = o.addr // S.lb % S.nsets
    kinds = [m.a for m in M]
    if t == READ or t == WRITE:
        if e.c not in (0, 1): err('hit', 'op %d %r answered with test=%d' % (i, o, e.c))
        if kinds not in ([], [READ], [WRITE, READ]):
            err('traffic', 'op %d %r caused memory requests %s' % (i, o, [TN.get(k, k) for k in kinds]))
        if kinds[-1:] == [READ] and M[-1].addr != L: err('traffic', 'op %d %r fetched line %x' % (i, o, M[-1].addr))
        if kinds[:1] == [WRITE]:
            if M[0].addr // S.lb % S.nsets != st or M[0].addr == L:
                err('traffic', 'op %d %r evicted line %x' % (i, o, M[0].addr))
            count('evict_dirty')
        if e.c and kinds: err('traffic', 'op %d %r reported a hit but went to memory' % (i, o))
        if not e.c and READ not in kinds: err('traffic', 'op %d %r reported a miss but fetched nothing' % (i, o))
        if READ not in kinds and L not in S.fetched:
            err('inv', 'op %d %r used line %x, which was not fetched since it was last invalidated' % (i, o, L))
        if S.last.get(st) == L and e.c == 0: err('retain', 'op %d %r missed, although its line was the last one used in its set' % (i, o))
        if L in S.flushed.get(st, ()) and e.c == 0: err('keep', 'op %d %r missed, although its line was valid before and after the last flush' % (i, o))
        S.last[st] = L
        u = S.used.setdefault(st, [])
        if L not in u: u.append(L)
        if len(u) > S.asso: S.flushed.pop(st, None)
        count('hit' if e.c else 'miss')
        c = S.copy.get(L)
        if c is None: return
        n = nbytes(scn.cfg, o)
        w0 = o.addr & ~3
        if t == READ:
            v = 0
            for j in range((n + 3) // 4): v |= c[w0 + 4 * j] << 32 * j
            v = (v >> 8 * (o.addr & 3)) & ((1 << 8 * n) - 1)
            if e.data != v: err('data', 'op %d %r returned %x, expected %x' % (i, o, e.data, v))
        else:
            d = o.data & ((1 << (32 if o.len == 3 else 8 * n)) - 1)
            for j in range((n + 3) // 4):
                a = w0 + 4 * j
                if n < 4:
                    sh = 8 * (o.addr & 3)
                    m = ((1 << 8 * n) - 1) << sh
                    v = c[a] & ~m | d << sh & m
                else: v = d >> 32 * j & M32
                c[a] = v
                S.dirty[a] = v
    elif t in AMOS:
        if e.c: err('hit', 'op %d %r answered with test=%d' % (i, o, e.c))
        if kinds not in ([t], [WRITE, t]):
            err('amo', 'op %d %r caused memory requests %s' % (i, o, [TN.get(k, k) for k in kinds]))
        else:
            if kinds[0] == WRITE and M[0].addr != L: err('amo', 'op %d %r wrote back line %x' % (i, o, M[0].addr))
            if S.dmask(L): err('amo', 'op %d %r did not write back its dirty line' % (i, o))
            m = M[-1]
            if m.addr != o.addr or m.c != 4 or m.data & M32 != o.data & M32:
                err('amo', 'op %d %r sent as addr %x len %d data %x' % (i, o, m.addr, m.c, m.data & M32))
        S.fetched.discard(L)
        S.copy.pop(L, None)
        if S.last.get(st) == L: S.last.pop(st)
        if L in S.used.get(st, ()) and len(S.used[st]) <= S.asso: S.used[st].remove(L)
        S.flushed.get(st, set()).discard(L)
        count('amo')
    elif t == INV:
        if e.c: err('hit', 'op %d inv answered with test=%d' % (i, e.c))
        if kinds: err('inv', 'op %d inv caused memory requests %s' % (i, [TN.get(k, k) for k in kinds]))
        count('inv_with_dirty' if S.dirty else 'inv')
        S.fetched.clear()
        S.last.clear()
        S.used.clear()
        S.flushed.clear()
    elif t == FLUSH:
        if e.c: err('hit', 'op %d flush answered with test=%d' % (i, e.c))
        if any(k != WRITE for k in kinds): err('flush', 'op %d flush caused memory requests %s' % (i, [TN.get(k, k) for k in kinds]))
        if len({m.addr for m in M}) != len(M): err('flush', 'op %d flush wrote a line twice' % i)
        if S.dirty: err('flush', 'op %d flush left words %s only in the cache' % (i, ['%x' % a for a in sorted(S.dirty)[:4]]))
        S.nflush += 1
        S.flushed = {x: set(u) for x, u in S.used.items() if len(u) <= S.asso}
        for x, l in S.last.items(): S.flushed.setdefault(x, {l})
        count('flush_%s' % ('none' if not M else 'one' if len(M) == 1 else 'many'))


def amo_data(scn, res):
    """Every AMO returns the memory word as it was immediately before, zero-extended."""
    out = []
    mem, infl, old = {}, [], {}
    mw = lambda a: mem[a] if a in mem else mix(a, scn.memseed)
    lb = scn.cfg[0] // 8
    for e in res.ev:
        if e.kind == ACCEPT: infl.append(e.idx)
        elif e.kind == POKE: mem[e.addr & ~3] = e.data
        elif e.kind == MREQ:
            if e.a == WRITE:
                for i in range(lb // 4):
                    if e.mask >> i & 1: mem[e.addr + 4 * i] = e.data >> 32 * i & M32
            elif e.a in AMOS:
                a = e.addr & ~3
                if infl: old[infl[0]] = mw(a)
                mem[a] = amo_fn(e.a, mw(a), e.data & M32)
        elif e.kind == RESP and infl:
            i = infl.pop(0)
            o = scn.ops[i]
            if o.type in AMOS and old.get(i) != e.data:
                out.append(('amo', 'op %d %r returned %x, memory held %s' % (i, o, e.data, '%x' % old[i] if i in old else 'not asked')))
    return out


def lru(scn, res, traffic=False):
    """Hit indication (and, optionally, the exact memory traffic) of a true-LRU set-associative cache."""
    c = Cache(scn.cfg, Flat(scn.memseed))
    out = []
    rs = [e for e in res.ev if e.kind == RESP]
    gm = [e for e in res.ev if e.kind == MREQ]
    k = 0
    for i, o in enumerate(scn.ops):
        d, t, ms = c.step(o)
        if i < len(rs) and rs[i].c != t:
            out.append(('hit', 'op %d %r answered with test=%d, expected %d' % (i, o, rs[i].c, t)))
        if traffic:
            g = [(e.a, e.addr) for e in gm[k:k + len(ms)]]
            k += len(ms)
            x = [(m[0], m[1]) for m in ms]
            if o.type == FLUSH: g, x = sorted(g), sorted(x)
            if g != x:
                f = lambda l: ['%s %x' % (TN.get(a, a), b) for a, b in l]
                out.append(('traffic', 'op %d %r caused memory requests %s, expected %s' % (i, o, f(g), f(x))))
                break
    if traffic and not out and k < len(gm): out.append(('traffic', 'unexpected memory request %r' % gm[k]))
    if len(rs) < len(scn.ops): out.append(('hit', 'op %d %r never answered' % (len(rs), scn.ops[len(rs)])))
    return out, c.n


def victims(scn, res):
    """A line that a read or write replaces must be the least recently used one of its set."""
    c, infl, ms = Cache(scn.cfg, Flat(scn.memseed)), [], []
    for e in res.ev:
        if e.kind == ACCEPT: infl.append(e.idx)
        elif e.kind == MREQ: ms.append((e.a, e.addr))
        elif e.kind == RESP and infl:
            i = infl.pop(0)
            o = scn.ops[i]
            _, t, _ = c.step(o)
            if e.c != t: break
            if o.type in (READ, WRITE):
                for a, x in ms:
                    if a == WRITE and x != c.victim:
                        return [('hit', 'op %d %r replaced line %x; the least recently used one is %s' % (i, o, x, 'an empty way' if c.victim is None else '%x' % c.victim))]
            ms = []
    return []


def fresh(scn, res):
    """Between resets: hit indications and memory traffic of a cache that starts empty."""
    out = []
    c, infl, ms = Cache(scn.cfg, Flat(scn.memseed)), [], []
    for e in res.ev:
        if e.kind == RESET: c, infl, ms = Cache(scn.cfg, Flat(scn.memseed)), [], []
        elif e.kind == ACCEPT: infl.append(e.idx)
        elif e.kind == MREQ: ms.append((e.a, e.addr))
        elif e.kind == RESP and infl:
            i = infl.pop(0)
            o = scn.ops[i]
            d, t, x = c.step(o)
            x = [(m[0], m[1]) for m in x]
            if e.c != t: out.append(('hit', 'op %d %r answered with test=%d; a fresh cache answers %d' % (i, o, e.c, t)))
            if (sorted(ms) != sorted(x)) if o.type == FLUSH else ms != x:
                f = lambda l: ['%s %x' % (TN.get(a, a), b) for a, b in l]
                out.append(('traffic', 'op %d %r caused memory requests %s; a fresh cache causes %s' % (i, o, f(ms), f(x))))
            ms = []
            if out: break
    return out


def proto(scn, res):
    N = {1: 'req.rdy depends combinationally on an enable', 2: 'memory resp.rdy depends combinationally on an enable',
         3: 'response sent while resp.rdy is low', 4: 'memory request sent while its rdy is low'}
    return [('proto', 'cycle %d core %d: %s' % (e.cyc, e.core, N[e.a])) for e in res.ev if e.kind == PROTO]


def first(errs, *cats):
    for c, m in errs:
        if not cats or c in cats: return m
    return None
