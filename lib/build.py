"""Build verilated simulators of the cache from the current /repo tree."""
import json, os, random, re, subprocess, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable

TRANSLATE = r'''
import sys, os, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
repo, clw, dbw, nb, asso, abw, obw, name = sys.argv[1:9]
clw, dbw, nb, asso, abw, obw = map(int, (clw, dbw, nb, asso, abw, obw))
sys.path.insert(0, repo)
from pymtl3.passes.backends.verilog import VerilogTranslationPass
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg
C = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
M = mk_mem_msg(obw, abw, clw, has_wr_mask=True)
d = BlockingCacheRTL(C[0], C[1], M[0], M[1], nb, asso)
d.set_metadata(VerilogTranslationPass.enable, True)
d.set_metadata(VerilogTranslationPass.explicit_file_name, name)
d.set_metadata(VerilogTranslationPass.explicit_module_name, name)
d.elaborate()
d.apply(VerilogTranslationPass())
'''

# a design with several caches; the one under test is c1, its Verilog is taken from the design's
JOINT = r'''
import sys, os, warnings, json
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
repo, name, cfgs = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
sys.path.insert(0, repo)
from pymtl3 import Component
from pymtl3.passes.backends.verilog import VerilogTranslationPass
from pymtl3.stdlib.mem import MemMasterIfcRTL, MemMinionIfcRTL
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg
class Joint( Component ):
  def construct( s, cfgs ):
    for k, (clw, dbw, nb, asso, abw, obw) in enumerate( cfgs ):
      C = mk_mem_msg( obw, abw, dbw, has_wr_mask=False )
      M = mk_mem_msg( obw, abw, clw, has_wr_mask=True )
      c, i, m = BlockingCacheRTL( C[0], C[1], M[0], M[1], nb, asso ), MemMinionIfcRTL( C[0], C[1] ), MemMasterIfcRTL( M[0], M[1] )
      setattr( s, 'c%d' % k, c )
      setattr( s, 'i%d' % k, i )
      setattr( s, 'm%d' % k, m )
      for x, y in ((i, c.mem_minion_ifc), (m, c.mem_master_ifc)):
        for u, v in ((x.req, y.req), (x.resp, y.resp)):
          u.msg //= v.msg
          u.en //= v.en
          u.rdy //= v.rdy
d = Joint( cfgs )
d.set_metadata(VerilogTranslationPass.enable, True)
d.set_metadata(VerilogTranslationPass.explicit_file_name, name)
d.set_metadata(VerilogTranslationPass.explicit_module_name, name)
d.elaborate()
d.apply(VerilogTranslationPass())
'''


def partners(cfg):
    """A cache before and a cache after the one under test, each differing from it in one parameter (sometimes more)."""
    r = random.Random('partners/%r' % (tuple(cfg),))
    def vary(c, k):
        c = list(c)
        if k == 0: c[5] = r.choice([x for x in (1, 3, 4, 6, 8, 10, 16) if x != c[5]])
        elif k == 1: c[4] = r.choice([x for x in (24, 28, 32, 36, 40) if x != c[4]])
        elif k == 2: c[3] = 3 - c[3]
        elif k == 3: c[2] *= 2
        elif k == 4:
            o = [x for x in (32, 64, 128) if x != c[1] and 2 * x <= c[0]]
            if o: c[1] = r.choice(o)
            else: c[5] += 1
        else:
            if c[0] < 512: c[0], c[2] = c[0] * 2, c[2] * 2
            else: c[0] //= 2
        if c[2] * 8 // c[0] // c[3] < 2: c[2] *= 2
        return tuple(c)
    a, b = r.sample(range(6), 2)
    p, q = vary(cfg, a), vary(cfg, b)
    if r.random() < 0.3: q = vary(q, a)
    return p, q


TOP = '''
module vtop(input logic clk, input logic reset,
  input logic [%(rq)d-1:0] mnq_msg, input logic mnq_en, output logic mnq_rdy,
  output logic [%(rs)d-1:0] mnp_msg, output logic mnp_en, input logic mnp_rdy,
  output logic [%(mq)d-1:0] msq_msg, output logic msq_en, input logic msq_rdy,
  input logic [%(mr)d-1:0] msp_msg, input logic msp_en, output logic msp_rdy);
  %(name)s dut(.clk(clk), .reset(reset),
    .mem_minion_ifc__req__msg(mnq_msg), .mem_minion_ifc__req__en(mnq_en), .mem_minion_ifc__req__rdy(mnq_rdy),
    .mem_minion_ifc__resp__msg(mnp_msg), .mem_minion_ifc__resp__en(mnp_en), .mem_minion_ifc__resp__rdy(mnp_rdy),
    .mem_master_ifc__req__msg(msq_msg), .mem_master_ifc__req__en(msq_en), .mem_master_ifc__req__rdy(msq_rdy),
    .mem_master_ifc__resp__msg(msp_msg), .mem_master_ifc__resp__en(msp_en), .mem_master_ifc__resp__rdy(msp_rdy));
endmodule
'''


MACRO = '''
module sram_%(w)dx%(b)d(input logic CLK, CEN, RDWEN, input logic [%(a)d-1:0] A, input logic [%(b)d-1:0] D, BW,
  input logic T_LOGIC, T_Q_RST, output logic [%(b)d-1:0] Q, output logic [1:0] OBSV_CTL, input logic MA_SAWL, MA_WL, MA_VD1, MA_VD0, MA_WRT);
  logic [%(b)d-1:0] ram [0:%(w)d-1];
  assign OBSV_CTL = 0;
  always_ff @(posedge CLK) begin
    Q <= (!CEN && RDWEN) ? ram[A] : ~Q;
    if (!CEN && !RDWEN) ram[A] <= (ram[A] & ~BW) | (D & BW);
  end
endmodule
'''


def clog2(n):
    return max(0, (n - 1).bit_length())


class BuildError(Exception):
    pass


def cfg_name(cfg):
    return 'bc_%d_%d_%d_%d_%d_%d' % tuple(cfg)


RT = ['verilated.cpp', 'verilated_threads.cpp']


def vroot():
    return subprocess.run(['verilator', '--getenv', 'VERILATOR_ROOT'], capture_output=True, text=True).stdout.strip()


def CXX():
    v = vroot()
    return ['-I', v + '/include', '-I', v + '/include/vltstd', '-DVERILATOR=1', '-DVL_USER_FATAL', '-DVL_USER_STOP',
            '-DVM_COVERAGE=0', '-DVM_SC=0', '-DVM_TRACE=0']


def build_rt(wd, n):
    """Compile one file of the Verilator runtime, once per working directory."""
    o = os.path.join(wd, n + '.o')
    if not os.path.exists(o):
        t = '%s.%d' % (o, os.getpid())
        subprocess.run(['g++', '-std=gnu++17', '-O1', '-fPIC', '-w', '-c', vroot() + '/include/' + n, '-o', t] + CXX(), check=True)
        os.rename(t, o)
    return o


def build_map(job):
    kind, a, wd = job
    if kind == 'rt':
        return build_rt(wd, a)
    return build(a, wd)


PULSE = r'''
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], %r]
import pulse
pulse.install()
''' % HERE


def run_cli(cfg, d, name, extra):
    """translate.py, as a user would call it, in d -> the file it wrote and the module it must contain"""
    clw, dbw, nb, asso, abw, obw = cfg
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='')
    args = ['--size', nb, '--clw', clw, '--dbw', dbw, '--abw', abw, '--obw', obw, '--asso', asso]
    run = d
    if asso == 1:                           # from another directory, into one that need not exist
        run = os.path.join(d, 'elsewhere')
        os.makedirs(run, exist_ok=True)
        out = os.path.join(d, 'out', 'dir')
        if clw == 128: os.makedirs(out, exist_ok=True)
        args += ['--output-dir', out if dbw == 32 else os.path.join('..', 'out', 'dir')]
    p = subprocess.run([PY, REPO + '/blocking_cache/translate.py'] + [str(x) for x in args] + extra, cwd=run, env=env, capture_output=True, text=True)
    if asso == 1 and p.returncode == 0:
        if os.listdir(run): raise BuildError('translate: --output-dir is given, but %r appears in the working directory' % os.listdir(run))
        for f in os.listdir(out) if os.path.isdir(out) else (): os.rename(os.path.join(out, f), os.path.join(d, f))
    return p


def build_pulse(cfg, wd):
    try: return build(cfg, wd, how='pulse')
    except BuildError as e:             # a tree built in another way: judge it on the ordinary arrays
        print('pulse: %s' % str(e)[-300:], file=sys.stderr)
        return build(cfg, wd)
def build_joint(cfg, wd): return build(cfg, wd, how='joint')
def build_cli(cfg, wd): return build(cfg, wd, how='cli')
def build_cli_sram(cfg, wd): return build(cfg, wd, how='cli_sram')


def build(cfg, wd, opt='-O1', how=''):
    """cfg = (clw, dbw, num_bytes, assoc, abw, obw). Returns path of the .so"""
    clw, dbw, nb, asso, abw, obw = cfg
    name = cfg_name(cfg) + how
    d = os.path.join(wd, name)
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'lib.so')
    if os.path.exists(so):
        return so
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='')
    if how.startswith('cli'):
        p = run_cli(cfg, d, name, ['--replace-sram'] if how == 'cli_sram' else [])
    elif how == 'joint':
        p, q = partners(cfg)
        p = subprocess.run([PY, '-c', JOINT, REPO, name, json.dumps([p, cfg, q])], cwd=d, env=env, capture_output=True, text=True)
    else: p = subprocess.run([PY, '-c', (PULSE if how == 'pulse' else '') + TRANSLATE, REPO] + [str(x) for x in cfg] + [name],
                       cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('translate: ' + p.stderr[-2000:])
    vs = [f for f in os.listdir(d) if f.endswith('.v') or f.endswith('.sv')]
    if len(vs) != 1:
        raise BuildError('translate: files %r' % vs)
    if how == 'pulse':
        with open(os.path.join(d, vs[0])) as f: text = f.read()
        if 'module PulseSram' not in text: raise BuildError('translate: the SRAM arrays could not be replaced')
    if how == 'joint':
        with open(os.path.join(d, vs[0])) as f: text = f.read()
        inst = re.findall(r'^\s*(\w+)\s+c1\s*\(', text[text.index('module ' + name):], re.M)
        if len(inst) != 1: raise BuildError('joint: instances %r' % inst)
        name = inst[0]
    if how.startswith('cli'):
        name = vs[0].rsplit('.', 1)[0]
        if how == 'cli_sram':
            with open(os.path.join(d, vs[0])) as f: text = f.read()
            # the generated arrays must be gone: without their definitions the rest must still be complete
            text = re.sub(r'\nmodule SramGenericPRTL__.*?\nendmodule', '\n', text, flags=re.S)
            with open(os.path.join(d, vs[0]), 'w') as f:
                f.write(text)      # technology macros the repository has no behavioural model for
                for w, b in ((256, 25), (512, 128)):
                    if 'sram_%dx%d' % (w, b) in text and not re.search(r'module\s+sram_%dx%d\b' % (w, b), text):
                        f.write(MACRO % dict(w=w, b=b, a=clog2(w)))
            # each array of the cache must have become the macro of its own width and depth
            p = subprocess.run(['verilator', '--xml-only', '--xml-output', 'x.xml', '-Wno-fatal', '-Wno-lint', '--top-module', name, vs[0]], cwd=d, capture_output=True, text=True)
            if p.returncode: raise BuildError('cli_sram: ' + p.stderr[-1000:])
            lines = nb * 8 // clw
            tag = abw - clog2(clw // 8) - clog2(lines // asso) + 1 + clw // 32
            want = sorted(['sram_%dx%d' % (lines, clw)] + ['sram_%dx%d' % (lines // asso, tag)] * asso)
            with open(os.path.join(d, 'x.xml')) as f: got = sorted(re.findall(r'<cell [^>]*submodname="(sram_\d+x\d+)"', f.read()))
            os.remove(os.path.join(d, 'x.xml'))
            if got != want: raise BuildError('with --replace-sram the cache is made of the macros %s instead of %s' % (got, want))
    lw, ml, nw = clog2(dbw // 8), clog2(clw // 8), clw // 32
    with open(os.path.join(d, 'vtop.v'), 'w') as f:
        f.write(TOP % dict(name=name, rq=4 + obw + abw + lw + dbw, rs=4 + obw + 2 + lw + dbw,
                           mq=4 + obw + abw + ml + nw + clw, mr=4 + obw + 2 + ml + nw + clw))
    p = subprocess.run(['verilator', '--cc', '-O3', '--unroll-count', '100000', '--unroll-stmts', '10000000',
                        '--x-initial', 'unique', '--x-assign', 'unique', '-Wno-fatal', '-Wno-lint',
                        '-Wno-UNOPTFLAT', '--Mdir', 'o', '--prefix', 'Vc', '--top-module', 'vtop', vs[0], 'vtop.v'],
                       cwd=d, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('verilator: ' + (p.stderr or p.stdout)[-2000:])
    srcs = sorted(f for f in os.listdir(os.path.join(d, 'o')) if f.endswith('.cpp'))
    with open(os.path.join(d, 'all.cpp'), 'w') as f:
        for x in srcs:
            f.write('#include "%s"\n' % os.path.join(d, 'o', x))
        f.write('#include "%s"\n' % os.path.join(HERE, 'harness.cpp'))
    q = subprocess.run(['g++', '-std=gnu++17', opt, '-fPIC', '-fno-gnu-unique', '-w', '-c', os.path.join(d, 'all.cpp'),
                        '-o', os.path.join(d, 'all.o'), '-I', os.path.join(d, 'o')] + CXX() +
                       ['-DCLW=%d' % clw, '-DDBW=%d' % dbw, '-DABW=%d' % abw, '-DOBW=%d' % obw],
                       capture_output=True, text=True)
    if q.returncode:
        raise BuildError('g++: ' + q.stderr[-2000:])
    rt = [os.path.join(wd, n + '.o') for n in RT]
    for _ in range(600):                    # normally another process is compiling these
        if all(map(os.path.exists, rt)):
            break
        time.sleep(0.1)
    else:
        for n in RT:
            build_rt(wd, n)
    q = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', os.path.join(d, 'all.o')] + rt + ['-o', so + '.tmp', '-lpthread'],
                       capture_output=True, text=True)
    if q.returncode:
        raise BuildError('link: ' + q.stderr[-2000:])
    os.rename(so + '.tmp', so)
    return so
