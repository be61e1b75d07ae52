"""Generated-input search: build the simulators, run the cases of one property on 8 processes,
shrink the first failure, write the replay file and the evidence."""
import os, sys, time, json, random, shutil, tempfile, hashlib, collections, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing as mp
import build, gen
from sim import Scn, Sim

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
JOBS = min(8, os.cpu_count() or 8)
T0 = time.time()

# ---- workers ---------------------------------------------------------------
_check = None
_sims = {}


def _init(check, wd):
    global _check
    _check = check
    os.chdir(wd)
    sys.stdout = sys.stderr
    import gc
    gc.freeze()


def get_sim(cfg, backend):
    k = (cfg, backend)
    if k not in _sims:
        if backend == 'py':
            import pysim
            _sims[k] = pysim.PySim(cfg)
        else:
            _sims[k] = Sim(backend)
    return _sims[k]


def _build(cfg, wd):
    """-> (backend, note). backend: path of a .so, 'py', or None when the cache cannot even be constructed."""
    try:
        if _check.py_only: raise build.BuildError('')
        return (_check.build or build.build)(cfg, wd), ''
    except build.BuildError as e:
        note = str(e)
    import pysim
    try:
        get_sim(cfg, 'py').duts(1)
        return 'py', note
    except MemoryError:
        raise
    except Exception:
        return None, traceback.format_exc()[-1500:]


def case_rng(pid, seed, cfg, i):
    return random.Random('%s/%d/%r/%d' % (pid, seed, cfg, i))


def judge(c, case, sim):
    try: return c.check(case, sim)
    except Exception as e:
        if type(e).__name__ != 'SimRaised': raise
        return str(e), {}, 0


def _chunk(cfg, backend, lo, hi, seed):
    c = _check
    out = dict(n=0, keys=[], labels=collections.Counter(), samples=[], fail=None, ops=0)
    sim = get_sim(cfg, backend)
    gen.LONG = backend != 'py'
    for i in range(lo, hi):
        r = case_rng(c.pid, seed, cfg, i)
        case = c.gen(r, cfg)
        msg, labels, nontriv = judge(c, case, sim)
        out['n'] += 1
        out['ops'] += len(case.ops)
        for l in labels: out['labels'][l] += labels[l] if isinstance(labels, dict) else 1
        if nontriv:
            out['keys'].append(case.key())
            if len(out['samples']) < 1: out['samples'].append(c.sample(case))
        if msg:
            out['fail'] = (i, case.j(), msg)
            break
    return out


def _one(case, backend):
    return judge(_check, case, get_sim(case.cfg, backend))[0]


def _plain(cfg, wd):
    try: return build.build(cfg, wd)
    except build.BuildError: return None


def known_findings(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def _rt(wd, n):
    build.build_rt(wd, n)


# ---- base class ------------------------------------------------------------
class Check:
    pid = ''
    rule = ''
    assumptions = []
    build = None
    require_verilog = False
    plain_build = False
    py_only = False          # decided on the PyMTL simulation alone

    def cfgs(self, r, tier): raise NotImplementedError     # -> [(cfg, number of cases)]
    def gen(self, r, cfg): raise NotImplementedError
    def check(self, case, sim): raise NotImplementedError   # -> (message or None, labels, nontrivial)
    def legal(self, case): return True                     # used while shrinking

    def sample(self, case):
        return dict(cfg=list(case.cfg), ops=[repr(o) for o in case.ops[:8]] + (['... %d ops' % len(case.ops)] if len(case.ops) > 8 else []),
                    resp_rdy=case.resp[0][:16], mem_rdy=case.mem[0][:16], latency=case.lat[0][:8],
                    junk=bool(case.junk), random_power_on=bool(case.initseed), resets=case.resets,
                    **({'x': case.x} if case.x and len(repr(case.x)) < 300 else {}))


# ---- shrinking -------------------------------------------------------------
def shrink(check, case, sim, budget=600, seconds=40):
    n = [0]
    t = time.time()

    def bad(c):
        if n[0] >= budget or time.time() - t > seconds: return None
        if not c.ops or not check.legal(c): return None
        n[0] += 1
        try:
            return judge(check, c, sim)[0]
        except Exception:
            return None
    best = case
    msg = judge(check, case, sim)[0]

    def attempt(c):
        nonlocal best, msg
        m = bad(c)
        if m:
            best, msg = c, m
            return True
        return False
    # operations (ddmin), then environment, then operation details
    for rnd in range(2):
        k = max(1, len(best.ops) // 2)
        while k >= 1:
            i = 0
            while i < len(best.ops):
                c = best.copy()
                del c.ops[i:i + k]
                for r in c.resets:
                    if r[0] >= i + k: r[0] -= k
                if not attempt(c): i += k
            k //= 2
        for field, val in (('junk', 0), ('initseed', 0), ('resp', [[1]] * best.ncores), ('mem', [[1]] * best.ncores),
                           ('lat', [[1]] * best.ncores), ('reset_len', 2), ('memseed', 1)):
            if getattr(best, field) != val:
                c = best.copy()
                setattr(c, field, [list(x) for x in val] if isinstance(val, list) else val)
                attempt(c)
        for i in range(len(best.ops)):
            for field, val in (('gap', 0), ('drain', 0), ('opq', 0), ('data', 1 + i), ('data', 0)):
                if getattr(best.ops[i], field) != val:
                    c = best.copy()
                    setattr(c.ops[i], field, val)
                    if attempt(c) and field == 'data': break
    return best, msg, n[0]


# ---- parent ----------------------------------------------------------------
def outdir():
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    return d


def write_evidence(pid, cov, assumptions, violations, level='exploration'):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    e = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions,
             wall_s=round(time.time() - T0, 2), violations=violations)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1, default=str)
        f.write('\n')


def violation(pid, name, payload):
    p = os.path.join(outdir(), '%s-%s.json' % (pid, name))
    with open(p, 'w') as f:
        json.dump(payload, f, indent=1, default=str)
        f.write('\n')
    print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
    return p


def run_dynamic(check):
    wd = tempfile.mkdtemp(prefix='vf_')
    ctx = mp.get_context('fork')
    ex = ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=_init, initargs=(check, wd))
    limit = 480 if TIER == 'quick' else 6 * 3600
    tot = collections.Counter()
    keys, samples, notes, fail, per = set(), [], [], None, collections.Counter()
    try:
        r = random.Random('cfgs/%s/%d/%s' % (check.pid, SEED, TIER))
        plan = check.cfgs(r, TIER)
        want = dict(plan)
        order = sorted(want, key=lambda c: -c[2])     # big caches take longest
        futs = {}
        for n in () if check.py_only else build.RT: futs[ex.submit(_rt, wd, n)] = ('rt', n)
        for c in order: futs[ex.submit(_build, c, wd)] = ('build', c)
        npy = 0
        nops = 0
        untrans = []
        while futs and not fail:
            done, _ = wait(list(futs), timeout=10, return_when=FIRST_COMPLETED)
            for f in done:
                kind, c = futs.pop(f)
                res = f.result()
                if kind == 'build':
                    backend, note = res
                    if backend is None:
                        fail = (c, None, None, 'the cache cannot be constructed for this configuration: ' + note)
                        break
                    n = want[c]
                    if backend == 'py' and check.require_verilog:
                        untrans.append((c, note))
                        continue
                    if backend == 'py' and check.py_only: step = 2
                    elif backend == 'py':
                        notes.append('%r: no Verilog simulator, PyMTL simulation used: %s' % (c, note[-300:]))
                        npy += 1
                        if TIER == 'quick': limit = min(limit, 150)
                        if npy > 6: continue
                        n, step = max(8, min(64, n // 12)), 2
                        if c[2] * 8 // c[0] > 64: n = 4
                    else:
                        step = max(8, min(250, n // 4 + 1))
                        if c[2] * 8 // c[0] > 64: step = max(4, step // 8)
                    for lo in range(0, n, step):
                        futs[ex.submit(_chunk, c, backend, lo, min(n, lo + step), SEED)] = ('run', (c, backend))
                elif kind == 'run':
                    tot.update(res['labels'])
                    per[c[0]] += res['n']
                    nops += res['ops']
                    keys.update(res['keys'])
                    if len(samples) < 3: samples += res['samples']
                    if res['fail']:
                        fail = (c[0], c[1], res['fail'], res['fail'][2])
                        break
            if time.time() - T0 > limit and any(v[0] == 'run' for v in futs.values()):
                notes.append('time limit reached: %d chunks not run' % len(futs))
                for f in futs: f.cancel()
                break
        if untrans and not fail:
            # a configuration that cannot be built while others can; when none can, nothing is decided here
            for c, note in untrans:
                b, note2 = ex.submit(_build, c, wd).result()
                if b == 'py' and per: fail = (c, None, None, 'no Verilog can be built for this configuration, though other configurations build: ' + note2)
                elif b != 'py': notes.append('%r: built on retry, not run' % (c,))
            if not per and check.plain_build and not fail:
                c, note = untrans[0]
                if ex.submit(_plain, c, wd).result(): fail = (c, None, None, 'this way of generating Verilog fails, though the cache can be translated: ' + note)
            if not per and not fail: notes.append('no configuration can be translated and built: ' + untrans[0][1][-300:])
        cov = dict(evaluations=sum(per.values()), distinct_nontrivial=len(keys), rule=check.rule, samples=samples[:3],
                   operations=nops, configurations={repr(k): v for k, v in sorted(per.items())},
                   classes=dict(sorted(tot.items())), notes=notes)
        if fail:
            for f in futs: f.cancel()
            cfg, backend, f, msg = fail
            if f is None:
                write_evidence(check.pid, cov, check.assumptions, 1)
                violation(check.pid, 'construct', dict(property=check.pid, cfg=list(cfg), message=msg, replay='run.py %s --replay <this file>' % check.pid))
                print(msg[-600:])
                return 1
            case = Scn.from_j(f[1])
            os.chdir(wd)
            sim = get_sim(cfg, backend)
            small, m, n = shrink(check, case, sim)
            write_evidence(check.pid, dict(cov, violation=m), check.assumptions, 1)
            violation(check.pid, 'case', dict(property=check.pid, message=m, case=small.j(), ops=[repr(o) for o in small.ops],
                      found='seed %d cfg %r case %d' % (SEED, cfg, f[0]), shrink_runs=n, original=f[1],
                      backend='pymtl' if backend == 'py' else 'verilator',
                      replay='/opt/venv/bin/python /verif/run.py %s --replay <this file>' % check.pid))
            print('  %s: %s' % (cfg, m))
            for o in small.ops[:30]: print('   ', o)
            return 1
        if not fail:
            for k in known_findings(check.pid):
                kc = Scn.from_j(k['case'])
                b, note = ex.submit(_build, kc.cfg, wd).result()
                if b and ex.submit(_one, kc, b).result(): print('KNOWN-FINDING: property=%s %s' % (check.pid, k['what']), flush=True)
        if not per and not untrans:
            raise RuntimeError('no case was run')
        write_evidence(check.pid, cov, check.assumptions, 0)
        print('%s ok: %d cases, %d nontrivial, %d ops, %.1fs %s' % (check.pid, sum(per.values()), len(keys), nops, time.time() - T0, notes[:1] or ''))
        return 0
    finally:
        for p in list(getattr(ex, '_processes', None) or {}):
            try: os.kill(p, 9)
            except OSError: pass
        ex.shutdown(wait=False, cancel_futures=True)
        os.chdir(VERIF)
        shutil.rmtree(wd, ignore_errors=True)


def replay_dynamic(check, path):
    d = json.load(open(path))
    wd = tempfile.mkdtemp(prefix='vf_')
    try:
        _init(check, wd)
        cfg = tuple(d['cfg'] if 'cfg' in d else d['case']['cfg'])
        backend, note = _build(cfg, wd)
        sys.stdout = sys.__stdout__
        if backend is None or backend == 'py' and check.require_verilog:
            print('reproduced: ' + note[-600:]); return 1
        if 'case' not in d:
            print('not reproduced: the cache can be constructed'); return 0
        case = Scn.from_j(d['case'])
        msg = judge(check, case, get_sim(cfg, backend))[0]
        print('reproduced: ' + msg if msg else 'not reproduced')
        if '-v' in sys.argv:
            for e in get_sim(cfg, backend).run(case).ev: print('   ', e)
        return 1 if msg else 0
    finally:
        os.chdir(VERIF)
        shutil.rmtree(wd, ignore_errors=True)
