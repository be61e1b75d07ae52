"""PyMTL back end: the same environment as harness.cpp, around the PyMTL simulation of the cache.
Used to cross-check the translation (C17) and as a fallback when Verilog cannot be built."""
import sys, os, random
from sim import *
import build


def make_dut(cfg):
    if build.REPO not in sys.path:
        sys.path.insert(0, build.REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')
    from pymtl3 import DefaultPassGroup
    from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
    from mem_ifcs.MemMsg import mk_mem_msg
    clw, dbw, nb, asso, abw, obw = cfg
    C = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
    M = mk_mem_msg(obw, abw, clw, has_wr_mask=True)
    d = BlockingCacheRTL(C[0], C[1], M[0], M[1], nb, asso)
    d.elaborate()
    d.apply(DefaultPassGroup())
    return d, C, M


class SimRaised(Exception):
    """The design itself raises while it is simulated (not the harness)."""


def guarded(f):
    def g():
        try: f()
        except (MemoryError, KeyboardInterrupt): raise
        except Exception as e: raise SimRaised('simulating the cache raises %s: %s' % (type(e).__name__, str(e)[:300]))
    return g


def edge(d):
    try: f = list(d._sched.schedule_ff) + list(d._sched.schedule_posedge_flip)
    except (AttributeError, TypeError): return None
    def g():
        for x in f: x()
    return guarded(g)


class Dut:
    """Two-phase access to the ports: set inputs, settle, read outputs, tick."""

    def __init__(s, cfg):
        s.cfg = cfg
        s.d, s.C, s.M = make_dut(cfg)
        from pymtl3 import mk_bits, b1
        s.b1 = b1
        s.rq_t, s.mp_t = s.C[0], s.M[1]
        s.rq_b, s.mp_b = mk_bits(s.rq_t.nbits), mk_bits(s.mp_t.nbits)
        m, q = s.d.mem_minion_ifc, s.d.mem_master_ifc
        s.m, s.q = m, q
        s.settle = guarded(s.d.sim_eval_combinational)
        s.full = guarded(s.d.sim_tick)
        s.edge, s.ticks = edge(s.d), 0

    def inputs(s, rst, rq, rq_en, resp_rdy, mreq_rdy, mp, mp_en):
        d, m, q = s.d, s.m, s.q
        d.reset @= int(rst)
        m.req.msg @= s.rq_t.from_bits(s.rq_b(rq))
        m.req.en @= int(rq_en)
        m.resp.rdy @= int(resp_rdy)
        q.req.rdy @= int(mreq_rdy)
        q.resp.msg @= s.mp_t.from_bits(s.mp_b(mp))
        q.resp.en @= int(mp_en)
        s.settle()

    def tick(s):
        """The clock edge. sim_tick settles before and after it as well, which inputs() does again: done only now and then."""
        s.ticks += 1
        if s.edge is None or s.ticks % 16 == 0: s.full()
        else: s.edge()

    def enables(s, rq_en, mp_en):
        s.m.req.en @= int(rq_en)
        s.q.resp.en @= int(mp_en)
        s.settle()

    def rdys(s):
        return int(s.m.req.rdy), int(s.q.resp.rdy)

    def outs(s):
        return (int(s.m.req.rdy), int(s.m.resp.en), int(s.q.req.en), int(s.q.resp.rdy))

    def resp_msg(s): return int(s.m.resp.msg.to_bits())
    def mreq_msg(s): return int(s.q.req.msg.to_bits())


def clog2(n): return max(0, (n - 1).bit_length())


class TraceDut:
    """The same device, printing a line trace in every cycle before the clock edge."""

    def __init__(s, dut, level):
        s.__dict__.update({k: v for k, v in dut.__dict__.items() if k != 'tick'})
        s.level, s.lines, s.dut = level, [], dut

    def __getattr__(s, n): return getattr(s.dut, n)

    def tick(s):
        d = s.d
        st = (int(d.mem_minion_ifc.req.rdy), int(d.mem_minion_ifc.resp.en), int(d.mem_master_ifc.req.en), int(d.mem_master_ifc.resp.en),
              int(d.mem_minion_ifc.req.en), int(d.mem_minion_ifc.resp.rdy) & int(d.mem_master_ifc.req.rdy))
        pins = str(d.mem_master_ifc.req.msg), str(d.mem_master_ifc.resp.msg)
        try: x = d.line_trace() if s.level is None else d.line_trace(level=s.level)
        except Exception as e:
            raise TraceFailed('cycle %d: line_trace(%s) raises %s: %s' % (len(s.lines), s.level, type(e).__name__, e))
        s.lines.append((st, pins, x, int(d.reset)))
        s.dut.tick()


class TraceFailed(Exception): pass


class Fmt:
    def __init__(s, cfg):
        clw, dbw, nb, asso, abw, obw = cfg
        s.clw, s.dbw, s.abw, s.obw = clw, dbw, abw, obw
        s.lw, s.ml, s.nw = clog2(dbw // 8), clog2(clw // 8), clw // 32

    def req(s, t, opq, addr, ln, data):
        v = t
        v = v << s.obw | opq & ((1 << s.obw) - 1)
        v = v << s.abw | addr & ((1 << s.abw) - 1)
        v = v << s.lw | ln & ((1 << s.lw) - 1)
        return v << s.dbw | data & ((1 << s.dbw) - 1)

    @property
    def rq_w(s): return 4 + s.obw + s.abw + s.lw + s.dbw
    @property
    def mp_w(s): return 4 + s.obw + 2 + s.ml + s.nw + s.clw

    def resp(s, v):
        d = v & ((1 << s.dbw) - 1); v >>= s.dbw
        ln = v & ((1 << s.lw) - 1); v >>= s.lw
        t = v & 3; v >>= 2
        o = v & ((1 << s.obw) - 1); v >>= s.obw
        return v, o, t, ln, d

    def mreq(s, v):
        d = v & ((1 << s.clw) - 1); v >>= s.clw
        m = v & ((1 << s.nw) - 1); v >>= s.nw
        ln = v & ((1 << s.ml) - 1); v >>= s.ml
        a = v & ((1 << s.abw) - 1); v >>= s.abw
        o = v & ((1 << s.obw) - 1); v >>= s.obw
        return v, o, a, ln, m, d

    def mresp(s, t, o, test, ln, m, d):
        v = t
        v = v << s.obw | o
        v = v << 2 | test & 3
        v = v << s.ml | ln & ((1 << s.ml) - 1)
        v = v << s.nw | m & ((1 << s.nw) - 1)
        return v << s.clw | d & ((1 << s.clw) - 1)


class PySim:
    pool = {}

    def __init__(s, cfg):
        s.cfg = tuple(cfg)
        s.f = Fmt(cfg)

    def duts(s, n):
        l = PySim.pool.setdefault(s.cfg, [])
        while len(l) < n: l.append(Dut(s.cfg))
        return l[:n]

    def run(s, scn, maxcycles=60000):
        f, N = s.f, scn.ncores
        D = s.duts(N)
        jr = random.Random(scn.junk)
        ev = []

        def emit(kind, cyc, core, **k):
            e = Ev()
            e.kind, e.cyc, e.core = kind, cyc, core
            e.a = e.b = e.c = e.d = e.addr = e.mask = e.idx = e.data = 0
            for x, y in k.items(): setattr(e, x, y)
            ev.append(e)
        mem = {}
        amask = (1 << f.abw) - 1
        rd = lambda a: mem[a & ~3] if a & ~3 in mem else mix(a & ~3, scn.memseed)

        class K: pass
        ks = []
        for c in range(N):
            k = K()
            k.ops = [i for i, o in enumerate(scn.ops) if o.core == c]
            k.next = k.next_ok = k.outstanding = k.lastready = k.nreq = 0
            k.infl, k.q = [], []
            ks.append(k)
        pokes = [i for i, o in enumerate(scn.ops) if o.core >= N]
        maxphase = max([o.phase for o in scn.ops], default=0)
        phase_left = [0] * (maxphase + 2)
        for o in scn.ops: phase_left[o.phase] += 1
        cur = npoke = 0
        left = len(scn.ops)
        stall = drain = status = 0
        nrst, rst_at, rst_left = 0, -1, scn.reset_len
        limit = stall_limit(scn.cfg)
        cyc = -1
        while True:
            cyc += 1
            if cyc >= maxcycles: status = 2; break
            rst = False
            if rst_left > 0: rst = True; rst_left -= 1
            elif rst_at >= 0 and cyc >= rst_at:
                rst_at, rst, rst_left = -1, True, scn.resets[nrst][2] - 1
                nrst += 1
                emit(RESET, cyc, 0, a=nrst - 1)
                for k in ks:
                    for i in k.infl: phase_left[scn.ops[i].phase] -= 1; left -= 1
                    k.infl, k.q, k.outstanding = [], [], 0
            while cur <= maxphase and phase_left[cur] == 0: cur += 1
            progress, joint = False, True
            if not rst and npoke < len(pokes) and scn.ops[pokes[npoke]].phase == cur:
                o = scn.ops[pokes[npoke]]
                mem[o.addr & amask & ~3] = o.data & M32
                emit(POKE, cyc, o.core, idx=pokes[npoke], addr=o.addr, data=o.data & M32)
                npoke += 1; phase_left[o.phase] -= 1; left -= 1; progress = True
            for c in range(N):
                k, d = ks[c], D[c]
                rr = bool(scn.resp[c][cyc % len(scn.resp[c])])
                mr = bool(scn.mem[c][cyc % len(scn.mem[c])])
                if not (rr and mr): joint = False
                mv = not rst and bool(k.q) and k.q[0][0] <= cyc
                mb = k.q[0][1] if mv else (jr.getrandbits(f.mp_w) if scn.junk else 0)
                want, oi = False, -1
                if not rst and k.next < len(k.ops) and rst_at < 0:
                    oi = k.ops[k.next]
                    o = scn.ops[oi]
                    want = o.phase == cur and cyc >= k.next_ok + o.gap and (not o.drain or k.outstanding == 0)
                rb = f.req(o.type, o.opq, o.addr, o.len, o.data) if want else (jr.getrandbits(f.rq_w) if scn.junk else 0)
                d.inputs(rst, rb, 0, rr, mr, mb, 0)
                q0, m0 = d.rdys()
                send, msend = bool(want and q0), bool(mv and m0)
                if send or msend: d.enables(send, msend)
                q1, se, me, m1 = d.outs()
                if not rst:
                    if q0 != q1: emit(PROTO, cyc, c, a=1)
                    if m0 != m1: emit(PROTO, cyc, c, a=2)
                    if se and not rr: emit(PROTO, cyc, c, a=3)
                    if me and not mr: emit(PROTO, cyc, c, a=4)
                    if msend:
                        emit(MRESP, cyc, c, a=k.q[0][2]); k.q.pop(0); progress = True
                    if send:
                        emit(ACCEPT, cyc, c, idx=oi)
                        k.infl.append(oi); k.outstanding += 1; k.next += 1; k.next_ok = cyc + 1; progress = True
                        if nrst < len(scn.resets) and scn.resets[nrst][0] <= oi and rst_at < 0:
                            rst_at = cyc + 1 + scn.resets[nrst][1]
                    if me and mr:
                        t, op, a, ln, mask, dat = f.mreq(d.mreq_msg())
                        emit(MREQ, cyc, c, a=t, b=op, c=ln, addr=a, mask=mask, data=dat)
                        progress = True
                        la = a & ~(f.clw // 8 - 1)
                        rdat = 0
                        if t == 0:
                            for i in range(f.nw): rdat |= rd(la + 4 * i) << 32 * i
                        elif t == 1:
                            for i in range(f.nw):
                                if mask >> i & 1: mem[la + 4 * i] = dat >> 32 * i & M32
                        elif 3 <= t <= 11:
                            old = rd(a)
                            mem[a & ~3] = amo_fn(t, old, dat & M32)
                            rdat = old
                        tst = 0
                        l2, m2 = (0 if t == 1 else ln), (mask if t == 0 else 0)
                        if scn.junk:
                            tst, l2, m2 = jr.getrandbits(2), jr.getrandbits(8), jr.getrandbits(f.nw)
                            if t == 1: rdat = jr.getrandbits(f.clw)
                        lat = scn.lat[c][k.nreq % len(scn.lat[c])] or 1
                        k.nreq += 1
                        ready = max(cyc + lat, k.lastready + 1)
                        k.lastready = ready
                        k.q.append((ready, f.mresp(t, op, tst, l2, m2, rdat), t))
                    if se and rr:
                        t, op, tst, ln, dat = f.resp(d.resp_msg())
                        idx = 0xffffffff
                        if k.infl:
                            idx = k.infl.pop(0)
                            phase_left[scn.ops[idx].phase] -= 1; left -= 1; k.outstanding -= 1
                        emit(RESP, cyc, c, a=t, b=op, c=tst, d=ln, data=dat, idx=idx)
                        progress = True
                d.tick()
            if progress or rst: stall = 0
            else:
                waiting = rst_at >= 0
                for k in ks:
                    if k.q and k.q[0][0] > cyc: waiting = True
                    if k.next < len(k.ops) and not k.infl and cyc < k.next_ok + scn.ops[k.ops[k.next]].gap: waiting = True
                if joint and not waiting and left > 0: stall += 1
            if left == 0:
                drain += 1
                if drain > scn.drain and rst_at < 0: status = 0; break
            if stall > limit: status = 1; break
        r = Result()
        r.ev, r.status, r.left, r.cycles, r.mem = ev, status, left, cyc, mem
        return r


def replay_trace(dut, trace, fmt):
    """Drive the recorded input trace of core 0; -> index and text of the first difference, or None."""
    def word(t, lo, bits):
        v = 0
        for i in range((bits + 31) // 32): v |= t[lo + i] << 32 * i
        return v & ((1 << bits) - 1)
    rs_w = 4 + fmt.obw + 2 + fmt.lw + fmt.dbw
    mq_w = 4 + fmt.obw + fmt.abw + fmt.ml + fmt.nw + fmt.clw
    for n, t in enumerate(trace):
        dut.inputs(t[0], word(t, 9, fmt.rq_w), t[1], t[2], t[3], word(t, 49, fmt.mp_w), t[4])
        o = dut.outs()
        if not t[0]:
            if list(o) != list(t[5:9]):
                return n, 'cycle %d: (req.rdy, resp.en, memreq.en, memresp.rdy) verilog %r pymtl %r' % (n, t[5:9], list(o))
            if o[1] and dut.resp_msg() != word(t, 89, rs_w):
                return n, 'cycle %d: response message verilog %x pymtl %x' % (n, word(t, 89, rs_w), dut.resp_msg())
            if o[2] and dut.mreq_msg() != word(t, 129, mq_w):
                return n, 'cycle %d: memory request verilog %x pymtl %x' % (n, word(t, 129, mq_w), dut.mreq_msg())
        dut.tick()
    return None
