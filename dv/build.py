"""Generate config.h and the LLVM IR of /repo's current sources (outside /repo)."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from .ir import Module
from .engine import Prog

REPO = os.environ.get('DV_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CSRC = ['modules/collections/src/list.c', 'modules/collections/src/set.c', 'modules/collections/src/primes.c',
        'modules/collections/src/linkedlist.c', 'modules/collections/src/hashtable.c', 'modules/utils/src/utils.c',
        'modules/utils/src/logger.c', 'src/cluster.c', 'src/constraint.c', 'src/distance.c', 'src/hdbscan.c',
        'src/outlier_score.c', 'src/undirected_graph.c']


def sources():
    """every C source of the library (a refactoring may add one)"""
    out = []
    for d in ('modules/collections/src', 'modules/utils/src', 'src'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append(d + '/' + f)
    return out


def configure(scratch):
    cfg = os.path.join(scratch, 'cfg')
    os.makedirs(cfg, exist_ok=True)
    r = subprocess.run(['cmake', '-S', REPO, '-B', cfg, '-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON',
                        '-DCMAKE_POLICY_VERSION_MINIMUM=3.5'], capture_output=True, text=True)
    if not os.path.exists(os.path.join(cfg, 'config.h')):
        raise RuntimeError('cmake did not produce config.h:\n' + r.stdout[-2000:] + r.stderr[-2000:])
    return cfg


def incs(cfg):
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'modules/collections/include'),
            '-I' + os.path.join(REPO, 'modules/utils/include'), '-I' + cfg]


def one(args):
    src, scratch, inc = args
    b = os.path.join(scratch, re.sub(r'\W', '_', src))
    r = subprocess.run([LLVM + '/clang', '-O0', '-g', '-fno-discard-value-names', '-fgnu89-inline', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone', '-S', '-w',
                        '-emit-llvm'] + inc + [os.path.join(REPO, src), '-o', b + '.ll'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    r = subprocess.run([LLVM + '/opt', '-S', '-passes=sroa,loop-simplify', b + '.ll', '-o', b + '.o.ll'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('opt failed on %s:\n%s' % (src, r.stderr[-3000:]))
    return b + '.o.ll'


# contracts with `folded` are verified on the code after two more clean-up passes: repeated loads are shared and short-circuit
# conditions become one condition, which keeps the number of paths through nested loops small
FOLD = 'early-cse<memssa>,simplifycfg<bonus-inst-threshold=8>,loop-simplify'
GEP0 = re.compile(r'getelementptr inbounds %struct\.([\w.]+), ptr (\S+), i32 0, i32 0(?=,|$)', re.M)
MARK0 = re.compile(r'call ptr @dv\.field0\.([\w.]+)\(ptr (\S+)\)(?: #\d+)?')


def fold(files):
    """the address of a first field must stay visible as such: it is a call of a pure function while the passes run"""
    def go(f):
        i, o = f.replace('.o.ll', '.g.ll'), f.replace('.o.ll', '.f.ll')
        s = GEP0.sub(r'call ptr @dv.field0.\1(ptr \2)', open(f).read())
        for t in sorted(set(re.findall(r'@dv\.field0\.([\w.]+)\(', s))):
            s += '\ndeclare ptr @dv.field0.%s(ptr) memory(none) nounwind willreturn speculatable\n' % t
        open(i, 'w').write(s)
        r = subprocess.run([LLVM + '/opt', '-S', '-passes=' + FOLD, i, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('opt failed on %s:\n%s' % (f, r.stderr[-3000:]))
        s = re.sub(r'^declare ptr @dv\.field0.*\n', '', open(o).read(), flags=re.M)
        s = MARK0.sub(r'getelementptr inbounds %struct.\1, ptr \2, i32 0, i32 0', s)
        if 'dv.field0' in s:
            raise RuntimeError('folding %s left a marker' % f)
        open(o, 'w').write(s)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(go, files))


def build_ir(scratch, cfg):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, [(s, scratch, incs(cfg)) for s in sources()]))


def load(files):
    mods = []
    for f in files:
        mods.append(Module(open(f).read(), os.path.basename(f)))
    return Prog(mods)
