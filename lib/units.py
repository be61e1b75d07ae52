"""Checks of the functional model, the SRAM, the message formats and the test memory, driven by Hypothesis."""
import os, sys, json, time, random, tempfile, shutil, collections, hashlib, traceback
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor
import build, engine
from engine import SEED, TIER, JOBS
from sim import *

if build.REPO not in sys.path: sys.path.insert(0, build.REPO)
import warnings
warnings.filterwarnings('ignore')
from hypothesis import given, settings, strategies as st, seed as hseed, HealthCheck, Phase
from hypothesis.errors import HypothesisException


class Failed(Exception):
    pass


def fail_of(e):
    tb = traceback.extract_tb(e.__traceback__)
    at = ['%s:%d' % (os.path.relpath(f.filename, build.REPO), f.lineno) for f in tb if f.filename.startswith(build.REPO + '/')]
    return '%s: %s%s' % (type(e).__name__, str(e).strip().splitlines()[-1][:200] if str(e).strip() else '', ' at ' + at[-1] if at else '')


# ================================================================== C18
OPNAME = {0: 'rd', 1: 'wr', 2: 'in', 3: 'ad', 4: 'an', 5: 'or', 6: 'sw', 7: 'mi', 8: 'mu', 9: 'mx', 10: 'xu', 11: 'xo', 14: 'inv', 15: 'fl'}


class FL:
    pid = 'C18'
    n = {'quick': 800, 'thorough': 20000}
    rule = ('Hypothesis lists of 1 to 60 requests (read, write, init, every AMO, INV, FLUSH; every size; addresses over the whole 32-bit space, concentrated on a few lines) and an initial image, '
            'for random geometries with 1, 2 or 4 ways, unbanked or one bank of 2 or 4; every response of the functional model is compared with a byte-addressed memory and an LRU stack; '
            'non-trivial = at least one hit, one miss, one store or AMO, and one value read back')
    assumptions = ['32-bit addresses (the model says so), naturally aligned requests; a bank of a banked cache is only sent lines of that bank.']

    def strategy(self):
        @st.composite
        def case(draw):
            dbw = draw(st.sampled_from([32, 32, 64, 128]))
            clw = draw(st.sampled_from([c for c in (64, 128, 256, 512) if c >= dbw]))
            asso = draw(st.sampled_from([1, 2, 2, 4]))
            nsets = draw(st.sampled_from([2, 4, 8, 64]))
            lb = clw // 8
            span = 1 << 32
            lines = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, span // lb - 1), st.integers(span // lb - 8, span // lb - 1),
                                            st.integers(0, 5).map(lambda k: k * nsets)), min_size=1, max_size=6))
            for k in draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 31)), max_size=3)):      # one address bit apart
                x = lines[k[0] % len(lines)] ^ (1 << k[1])
                if x < span // lb: lines.append(x)
            nbanks = draw(st.sampled_from([0, 0, 0, 1, 2, 4]))
            if nbanks > 1:                                  # the cache is one bank and sees only the lines of that bank
                bk = draw(st.integers(0, nbanks - 1))
                lines = [l // nbanks * nbanks + bk for l in lines]
            szs = [0] + [s for s in (1, 2, 4, 8) if s < dbw // 8]
            op = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]), st.sampled_from(lines), st.integers(0, lb - 1),
                           st.sampled_from(szs), st.integers(0, (1 << dbw) - 1), st.integers(0, 255))
            ops = []
            for t, l, off, ln, d, q in draw(st.lists(op, min_size=draw(st.sampled_from([1, 4, 12, 30])), max_size=60)):
                if t in AMOS: n, ln, d = 4, (0 if dbw == 32 else 4), d & M32
                else: n = dbw // 8 if ln == 0 else ln
                a = l * lb + off // n * n
                if t in (14, 15): a = ln = d = 0
                if t == 0: d = 0
                ops.append([t, q, a, ln, d])
            init = draw(st.lists(st.tuples(st.sampled_from(lines), st.integers(0, lb // 4 - 1), st.integers(0, M32)), max_size=8))
            return dict(dbw=dbw, clw=clw, asso=asso, nbanks=nbanks, nb=nsets * asso * lb, mem=[[l * lb + 4 * o, v] for l, o, v in init], ops=ops, given=draw(st.booleans()))
        return case()

    def check(self, c):
        from pymtl3 import Bits32, mk_bits
        try:
            from blocking_cache import BlockingCacheFL as F
            from mem_ifcs.MemMsg import mk_mem_msg, MemMsgType
            C = mk_mem_msg(8, 32, c['dbw'], has_wr_mask=False)
            M = mk_mem_msg(8, 32, c['clw'])
            flat = [x for p in c['mem'] for x in p]
            m = F.ModelCache(c['nb'], c['asso'], c.get('nbanks', 0), C[0], C[1], M[0], M[1], flat if (flat or c['given']) else None)
            for t, q, a, ln, d in c['ops']:
                x = F.req(C[0], OPNAME[t], q, a, ln, d)
                if t == 0: m.read(x.addr, x.opaque, x.len)
                elif t == 1: m.write(x.addr, x.data, x.opaque, x.len)
                elif t == 2: m.init(x.addr, x.data, x.opaque, x.len)
                elif t == 14: m.invalidate(x.opaque)
                elif t == 15: m.flush(x.opaque)
                else: m.amo(x.addr, x.data, x.opaque, x.len, x.type_)
            tr = m.get_transactions()
            got = [(int(r.type_), int(r.opaque), int(r.test), int(r.len), int(r.data)) for r in tr[1::2]]
            rq = [(int(r.type_), int(r.opaque), int(r.addr), int(r.len), int(r.data)) for r in tr[0::2]]
        except Exception as e:
            return 'the functional model raises ' + fail_of(e), {}, 0
        by = {}
        for a, v in c['mem']:
            for i in range(4): by[a + i] = v >> 8 * i & 255
        rd = lambda a, n: sum(by.get(a + i, 0) << 8 * i for i in range(n))

        def wr(a, n, v):
            for i in range(n): by[a + i] = v >> 8 * i & 255
        lb = c['clw'] // 8
        nsets = c['nb'] // lb // c['asso']
        sets, exp, lab, stored, back = {}, [], collections.Counter(), set(), 0
        for t, q, a, ln, d in c['ops']:
            L = a // lb
            s = sets.setdefault(L // max(1, c.get('nbanks', 0)) % nsets, [])
            n = 4 if t in AMOS else ln or c['dbw'] // 8
            test = data = 0
            if t < 3:
                if L in s: s.remove(L); test = 1
                s.append(L)
                if len(s) > c['asso']: s.pop(0); lab['replace'] += 1
                lab['hit' if test else 'miss'] += 1
                if t == 0:
                    data = rd(a, n)
                    back |= any(x in stored for x in range(a, a + n))
                else:
                    wr(a, n, d)
                    stored |= set(range(a, a + n))
                if t == 2: test = 0
            elif t in AMOS:
                if L in s: s.remove(L); lab['amo_cached'] += 1
                data = rd(a, 4)
                wr(a, 4, amo_fn(t, data, d))
                stored |= set(range(a, a + 4))
                lab['amo'] += 1
            elif t == 14: sets.clear(); lab['inv'] += 1
            exp.append((t, q, test, ln, data))
        for i, o in enumerate(c['ops']):
            if i >= len(got): return 'request %d %r has no response' % (i, o), lab, 0
            if got[i] != exp[i]: return 'request %d %s got response (type, opaque, test, len, data) %r, expected %r' % (i, OPNAME[o[0]] + ' %x' % o[2], got[i], exp[i]), lab, 0
            if rq[i] != (o[0], o[1], o[2], o[3], o[4]): return 'request %d recorded as %r' % (i, rq[i]), lab, 0
        return None, lab, bool(lab['hit'] and lab['miss'] and back)


# ================================================================== C19
class Sram:
    pid = 'C19'
    n = {'quick': 800, 'thorough': 12000}
    rule = ('Hypothesis sequences of 1 to 60 cycles of arbitrary pin values on SRAMs of random shape (1 to 512 bits, 2 to 64 words, also not a power of two); every word read is compared with an array '
            'updated bit by bit under the write enable; non-trivial = a read of a word partly overwritten under a mask, and an idle cycle with a write pending on the other pins')
    assumptions = ['Addresses are below the number of words; the output is only specified in the cycle after a read.']
    duts = {}

    def strategy(self):
        @st.composite
        def case(draw):
            nb = draw(st.sampled_from([1, 7, 22, 25, 26, 32, 64, 128, 200, 512]))
            nw = draw(st.sampled_from([2, 3, 4, 8, 11, 16, 64]))
            idx = draw(st.lists(st.integers(0, nw - 1), min_size=1, max_size=3))
            full = (1 << nb) - 1
            cyc = st.tuples(st.sampled_from([1, 1, 1, 0]), st.sampled_from([0, 1]), st.sampled_from(idx + [nw - 1]), st.integers(0, full),
                            st.one_of(st.integers(0, full), st.sampled_from([0, full, 1, full ^ (full >> 1)])))
            return dict(nb=nb, nw=nw, generic=draw(st.booleans()), cyc=[list(x) for x in draw(st.lists(cyc, min_size=draw(st.sampled_from([1, 8, 30])), max_size=60))], oe=draw(st.integers(0, 1 << 30)))
        return case()

    def check(self, c):
        k = (c['nb'], c['nw'], c['generic'])
        lab = collections.Counter()
        try:
            from pymtl3 import DefaultPassGroup
            if k not in Sram.duts:
                if c['generic']:
                    from sram.SramGenericPRTL import SramGenericPRTL
                    d = SramGenericPRTL(c['nb'], c['nw'])
                else:
                    from sram.SramPRTL import SramPRTL
                    d = SramPRTL(c['nb'], c['nw'])
                d.elaborate(); d.apply(DefaultPassGroup())
                d.reset @= 0
                Sram.duts[k] = d
            d = Sram.duts[k]
            mem, known = {}, {}
            last = None
            for n, (val, typ, idx, wd, wb) in enumerate(c['cyc'] + [[0, 0, 0, 0, 0]]):
                if c['generic']:
                    oe = c['oe'] >> (n % 30) & 1
                    d.CSB1 @= 1 - val; d.WEB1 @= 1 - typ; d.A1 @= idx; d.I1 @= wd; d.WBM1 @= wb; d.OEB1 @= oe
                    d.sim_eval_combinational()
                    out = int(d.O1)
                    if oe:
                        if out: return 'cycle %d: output %x while disabled' % (n, out), lab, 0
                        out = None
                else:
                    d.port0_val @= val; d.port0_type @= typ; d.port0_idx @= idx; d.port0_wdata @= wd; d.port0_wben @= wb
                    d.sim_eval_combinational()
                    out = int(d.port0_rdata)
                if last is not None and out is not None and (out ^ last[1]) & last[2]:
                    return 'cycle %d: word %d read as %x, it holds %x (known bits %x)' % (n, last[0], out, last[1], last[2]), lab, 0
                d.sim_tick()
                last = None
                if val and typ:
                    mem[idx] = mem.get(idx, 0) & ~wb | wd & wb
                    if known.get(idx) and wb & ~known[idx] == 0 and wb != known[idx]: lab['partial_overwrite'] += 1
                    known[idx] = known.get(idx, 0) | wb
                elif val:
                    last = (idx, mem.get(idx, 0), known.get(idx, 0))
                    if known.get(idx): lab['read_back'] += 1
                elif typ and wb: lab['masked_by_val'] += 1
        except Exception as e:
            Sram.duts.pop(k, None)
            return 'the SRAM raises ' + fail_of(e), lab, 0
        return None, lab, bool(lab['partial_overwrite'] and lab['read_back'] and lab['masked_by_val'])


# ================================================================== C22
CODES = dict(READ=0, WRITE=1, WRITE_INIT=2, AMO_ADD=3, AMO_AND=4, AMO_OR=5, AMO_SWAP=6, AMO_MIN=7, AMO_MINU=8, AMO_MAX=9, AMO_MAXU=10, AMO_XOR=11, LR=12, SC=13, INV=14, FLUSH=15)
STR = ['rd', 'wr', 'in', 'ad', 'an', 'or', 'sw', 'mi', 'mu', 'mx', 'xu', 'xo', 'lr', 'sc', 'iv', 'fl']


class Msg:
    pid = 'C22'
    n = {'quick': 1200, 'thorough': 30000}
    rule = ('Hypothesis message shapes (opaque 1 to 64 bits, address 1 to 64 bits, data 32 to 512 bits, with and without write mask) and field values; widths, bit layout, round trip through bits, '
            'equality, text form and type codes are checked for both messages of the pair; non-trivial = all fields non-zero and a shape other than 8/32/32')
    assumptions = ['Data widths are powers of two from 32 bits.']

    def strategy(self):
        @st.composite
        def case(draw):
            w = dict(opq=draw(st.sampled_from([1, 2, 4, 8, 8, 12, 16, 32, 64])), addr=draw(st.sampled_from([1, 10, 16, 32, 32, 33, 48, 64])),
                     data=draw(st.sampled_from([32, 64, 128, 256, 512])), mask=draw(st.booleans()))
            f = dict(type_=draw(st.integers(0, 15)), opaque=draw(st.integers(0, (1 << w['opq']) - 1)), addr=draw(st.integers(0, (1 << w['addr']) - 1)),
                     len=draw(st.integers(0, w['data'] // 8 - 1)), wr_mask=draw(st.integers(0, (1 << w['data'] // 32) - 1)), data=draw(st.integers(0, (1 << w['data']) - 1)),
                     test=draw(st.integers(0, 3)))
            return dict(w=w, f=f)
        return case()

    def check(self, c):
        w, f = c['w'], c['f']
        lab = {}
        try:
            import mem_ifcs.MemMsg as X
            from pymtl3 import mk_bits
            for n, v in CODES.items():
                if int(getattr(X.MemMsgType, n)) != v or int(getattr(X, 'MemMsgType_' + n)) != v: return 'type code of %s is not %d' % (n, v), lab, 0
                if X.MemMsgType.str[v] != STR[v]: return 'name of type %d is %r' % (v, X.MemMsgType.str[v]), lab, 0
            lw = (w['data'] // 8 - 1).bit_length()
            mk = [('wr_mask', w['data'] // 32)] if w['mask'] else []
            shapes = [[('type_', 4), ('opaque', w['opq']), ('addr', w['addr']), ('len', lw)] + mk + [('data', w['data'])],
                      [('type_', 4), ('opaque', w['opq']), ('test', 2), ('len', lw)] + mk + [('data', w['data'])]]
            pair = X.mk_mem_msg(w['opq'], w['addr'], w['data'], w['mask'])
            again = X.mk_mem_msg(w['opq'], w['addr'], w['data'], w['mask'])
            for k in (0, 1):
                T, sh = pair[k], shapes[k]
                kind = ('request', 'response')[k]
                tot = sum(b for _, b in sh)
                if T.nbits != tot: return '%s is %d bits wide, expected %d' % (kind, T.nbits, tot), lab, 0
                if T.data_nbits != w['data']: return '%s.data_nbits is %r' % (kind, T.data_nbits), lab, 0
                for n, b in sh:
                    if T.get_field_type(n).nbits != b: return '%s.%s is %d bits wide, expected %d' % (kind, n, T.get_field_type(n).nbits, b), lab, 0
                if list(T.__bitstruct_fields__) != [n for n, _ in sh]: return '%s fields are %r' % (kind, list(T.__bitstruct_fields__)), lab, 0
                m = T(*[f[n] for n, _ in sh])
                v = 0
                for n, b in sh: v = v << b | f[n]
                if int(m.to_bits()) != v: return '%s packs to %x, expected %x' % (kind, int(m.to_bits()), v), lab, 0
                r = T.from_bits(mk_bits(tot)(v))
                if r != m or any(int(getattr(r, n)) != f[n] for n, _ in sh): return '%s does not survive packing: %s -> %s' % (kind, m, r), lab, 0
                r2 = again[k].from_bits(m.to_bits())
                if int(r2.to_bits()) != v: return 'a second class of the same shape reads another value', lab, 0
                for n, b in sh:
                    o = T.from_bits(mk_bits(tot)(v))
                    setattr(o, n, getattr(o, n) ^ 1)
                    if o == m: return '%s with another %s compares equal' % (kind, n), lab, 0
                p = str(m).split(':')
                if len(p) != len(sh): return '%s prints as %r' % (kind, str(m)), lab, 0
                blank = f['type_'] == (0, 1)[k]
                for (n, b), x in zip(sh, p):
                    if n == 'type_': ok = x == STR[f[n]]
                    elif n == 'data' and blank: ok = x.strip() == '' and len(x) == w['data'] // 4
                    else: ok = int(x, 16) == f[n]
                    if not ok: return '%s prints %s as %r (%s)' % (kind, n, x, str(m)), lab, 0
            lab['mask' if w['mask'] else 'nomask'] = 1
        except Exception as e:
            return 'the message code raises ' + fail_of(e), lab, 0
        return None, lab, all(f.values()) and (w['opq'], w['addr'], w['data']) != (8, 32, 32)


# ================================================================== C26
class Steer:
    pid = 'C26'
    n = {'quick': 1000, 'thorough': 12000}
    rule = ('Hypothesis line contents, store data, sizes, aligned offsets, dirty masks and commands for every line and request width; both read selectors, the store replicator and the write-enable generator '
            'are simulated and compared with byte arithmetic, each with several input vectors in a row; non-trivial = an access smaller than the line at a non-zero offset with data that is not zero')
    assumptions = ['Offsets are naturally aligned and sizes powers of two (and 3 for a 32-bit store); units a tree does not offer under these names are skipped.']
    duts = {}
    skipped = set()

    def strategy(self):
        @st.composite
        def case(draw):
            dbw = draw(st.sampled_from([32, 64, 128]))
            clw = draw(st.sampled_from([c for c in (64, 128, 256, 512) if c >= dbw]))
            lb = clw // 8
            szs = [x for x in (1, 2, 4, 8, 16) if x <= dbw // 8]
            vec = []
            for _ in range(draw(st.integers(1, 6))):
                n = draw(st.sampled_from(szs))
                vec.append(dict(line=draw(st.integers(0, (1 << clw) - 1)), data=draw(st.integers(0, (1 << dbw) - 1)), n=n, off=draw(st.integers(0, lb // n - 1)) * n,
                                dw=draw(st.sampled_from([0, 0, 0, 1])), en=draw(st.sampled_from([1, 1, 1, 0])), amo=draw(st.sampled_from([0, 0, 0, 1])),
                                cmd=draw(st.integers(0, 3)), dty=draw(st.integers(0, (1 << clw // 32) - 1))))
            return dict(clw=clw, dbw=dbw, vec=vec)
        return case()

    @classmethod
    def unit(cls, name, clw, dbw):
        k = (name, clw, dbw)
        if k in cls.duts: return cls.duts[k]
        try:
            from pymtl3 import DefaultPassGroup
            from mem_ifcs.MemMsg import mk_mem_msg
            from blocking_cache.CacheDerivedParams import CacheDerivedParams
            from blocking_cache.units import muxes, arithmetics
            if name == 'cmds':
                from blocking_cache import cache_constants as cc
                d = {int(cc.WriteBitEnGen_CMD_NONE): 'none', int(cc.WriteBitEnGen_CMD_REQ): 'req', int(cc.WriteBitEnGen_CMD_DIRTY): 'dirty'}
                d = d if len(d) == 3 else None
            else:
                C, M = mk_mem_msg(8, 32, dbw, has_wr_mask=False), mk_mem_msg(8, 32, clw, has_wr_mask=True)
                par = CacheDerivedParams(C[0], C[1], M[0], M[1], clw // 8 * 4, 2)
                U = getattr(muxes if 'Mux' in name else arithmetics, name)
                d = U(par)
                d.elaborate()
                for q in {'DataReplicator': ('in_', 'len_', 'amo', 'out'), 'WriteBitEnGen': ('cmd', 'dty_mask', 'offset', 'len_', 'out')}.get(name, ('in_', 'en', 'amo', 'len_', 'offset', 'out')): getattr(d, q)
                d.apply(DefaultPassGroup())
        except Exception as e:
            cls.skipped.add('%s (%s)' % (name, fail_of(e)[:80]))
            d = None
            if (clw, dbw) != (128, 32) and cls.unit(name, 128, 32) is not None: raise
        cls.duts[k] = d
        return d

    def check(self, c):
        clw, dbw = c['clw'], c['dbw']
        lab = collections.Counter()
        full, word = (1 << dbw) - 1, (1 << clw) - 1
        nt = 0
        try:
            muxes = [(m, self.unit(m, clw, dbw)) for m in ('DataSelectMux', 'FastDataSelectMux')]
            rep, wen, cmds = self.unit('DataReplicator', clw, dbw), self.unit('WriteBitEnGen', clw, dbw), self.unit('cmds', 0, 0)
            for v in c['vec']:
                n, off, line, data = v['n'], v['off'], v['line'], v['data']
                ln = n % (dbw // 8)
                bits = (1 << 8 * n) - 1
                nt |= n < clw // 8 and off and line >> 8 * off & bits and data & bits and v['en']
                what = '%d-bit line, %d-bit request, %d bytes at offset %d' % (clw, dbw, n, off)
                for name, d in muxes:
                    if d is None: continue
                    d.in_ @= line; d.en @= v['en']; d.amo @= v['amo']; d.len_ @= ln; d.offset @= off
                    d.sim_eval_combinational()
                    o = int(d.out)
                    if v['amo']:
                        if (o ^ line) & M32: return '%s selects %x for an atomic operation, the word is %x' % (name, o, line & M32), lab, 0
                    else:
                        e = line >> 8 * off & bits if v['en'] else 0
                        if o != e: return '%s selects %x, expected %x (%s, enable %d)' % (name, o, e, what, v['en']), lab, 0
                    lab[name] += 1
                dw = v['dw'] and dbw == 32
                if dw: off, n, ln, bits = off // 8 * 8, 8, 3, full
                got = None
                if rep is not None:
                    rep.in_ @= data; rep.len_ @= ln; rep.amo @= v['amo']
                    rep.sim_eval_combinational()
                    got = int(rep.out)
                    if v['amo'] and got != data: return 'the replicator gives %x for the operand %x of an atomic operation' % (got, data), lab, 0
                    lab['DataReplicator'] += 1
                if wen is not None and cmds is not None and v['cmd'] in cmds:
                    wen.cmd @= v['cmd']; wen.dty_mask @= v['dty']; wen.offset @= off; wen.len_ @= ln
                    wen.sim_eval_combinational()
                    m = int(wen.out)
                    k = cmds[v['cmd']]
                    e = 0 if k == 'none' else ((1 << 8 * n) - 1) << 8 * off if k == 'req' else sum(M32 << 32 * i for i in range(clw // 32) if not v['dty'] >> i & 1)
                    if m != e: return 'write enable %x for command %s, expected %x (%s, dirty words %x)' % (m, k, e, what, v['dty']), lab, 0
                    lab['WriteBitEnGen'] += 1
                if got is not None and not v['amo']:
                    m = ((1 << 8 * n) - 1) << 8 * off
                    if (got ^ (data & bits & full) << 8 * off) & m & word: return 'the replicator puts %x under the store of %x (%s%s)' % (got, data, what, ', double word' if dw else ''), lab, 0
        except Exception as e:
            for k in [k for k in Steer.duts if k[1:] == (clw, dbw)]: Steer.duts.pop(k)
            return 'a data unit raises ' + fail_of(e), lab, 0
        return None, lab, bool(nt)


U = {c.pid: c for c in (FL, Sram, Msg, Steer)}


# ================================================================== driver
def _work(pid, w, n, wd):
    os.chdir(wd)
    sys.stdout = sys.stderr
    u = U[pid]()
    out = dict(n=0, keys=set(), labels=collections.Counter(), samples=[], fail=None)
    last = [None]

    @hseed(SEED * 1000003 + w)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(u.strategy())
    def t(c):
        msg, lab, nt = u.check(c)
        if last[0] is None:
            out['n'] += 1
            out['labels'].update(lab)
            if nt:
                out['keys'].add(hashlib.blake2b(json.dumps(c, sort_keys=True).encode(), digest_size=8).digest())
                if not out['samples'] and out['n'] > 20: out['samples'].append(json.loads(json.dumps(c)))
        if msg:
            last[0] = (json.loads(json.dumps(c)), msg)
            raise Failed(msg)
    try:
        t()
    except Failed:
        out['fail'] = last[0]
    except Exception:
        if last[0] is None: raise
        out['fail'] = last[0]       # e.g. flaky while shrinking: still a failing case
    return out


def run(pid, args):
    u = U[pid]()
    if '--replay' in args:
        d = json.load(open(args[args.index('--replay') + 1]))
        msg = u.check(d['case'])[0]
        print('reproduced: ' + msg if msg else 'not reproduced')
        return 1 if msg else 0
    wd = tempfile.mkdtemp(prefix='vf_')
    ex = ProcessPoolExecutor(JOBS, mp_context=mp.get_context('fork'))
    try:
        fs = [ex.submit(_work, pid, w, u.n[TIER], wd) for w in range(8)]
        tot, keys, samples, n, fail = collections.Counter(), set(), [], 0, None
        for f in fs:
            r = f.result()
            n += r['n']; tot.update(r['labels']); keys |= r['keys']
            if len(samples) < 2: samples += r['samples']
            fail = fail or r['fail']
        cov = dict(evaluations=n, distinct_nontrivial=len(keys), rule=u.rule, samples=samples, classes=dict(sorted(tot.items())))
        engine.write_evidence(pid, cov, u.assumptions, int(bool(fail)))
        if fail:
            engine.violation(pid, 'case', dict(property=pid, message=fail[1], case=fail[0], replay='/opt/venv/bin/python /verif/run.py %s --replay <this file>' % pid))
            print('  ' + fail[1])
            return 1
        print('%s ok: %d cases, %d nontrivial, %.1fs' % (pid, n, len(keys), time.time() - engine.T0))
        return 0
    finally:
        for p in list(getattr(ex, '_processes', None) or {}):
            try: os.kill(p, 9)
            except OSError: pass
        ex.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(wd, ignore_errors=True)
