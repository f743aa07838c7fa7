"""development driver: python3-vt -m dv.dev fn..."""
import sys, time, os, glob
from . import build
from .exec import Exec
from .ir import Unsupported
from .contracts import registry

def main():
    files = sorted(glob.glob('/tmp/w/cur/*.o.ll'))
    if not files or '-b' in sys.argv:
        os.makedirs('/tmp/w/cur', exist_ok=True)
        cfg = build.configure('/tmp/w/cur')
        files = build.build_ir('/tmp/w/cur', cfg)
    prog = build.load(files)
    cons = registry.contracts()
    folded = None
    for fn in [a for a in sys.argv[1:] if a[0] != '-']:
        t = time.time()
        if cons[fn].folded and folded is None:
            folded = build.load(build.fold(files))
        e = Exec(folded if cons[fn].folded else prog, cons, fn, {'timeout': 6000, 'effort': int(os.environ.get('DV_EFFORT', '0'))})
        try:
            e.verify()
        except Unsupported as ex:
            print(fn, 'UNSUPPORTED', ex)
            if os.environ.get('DV_DEBUG'):
                import traceback; traceback.print_exc()
            continue
        bad = [o for o in e.obs if not o.ok]
        print('%-30s %d/%d  %.1fs  queries %d  inl %s ext %s con %s' % (fn, len(e.obs) - len(bad), len(e.obs), time.time() - t, e.nq,
              sorted(e.inlined), sorted(e.used_externs), sorted(e.used_contracts)))
        for o in bad:
            print('   FAIL', o.name(), o.detail, o.hints)
        slow = sorted(e.obs, key=lambda o: -o.time)[:2]
        for o in slow:
            if o.time > 2:
                print('   slow', o.name(), '%.1f' % o.time)
main()
