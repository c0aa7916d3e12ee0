"""python3 -m sa.run <property> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    """findings recorded, not repaired: property -> list of (key, text)"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property='):
                pid, rest = line[len('known: property='):].split(' ', 1)
                key, text = rest.split(' :: ', 1)
                out.setdefault(pid, []).append((key, text))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import check
    ck = check.Check(pid, tier, seed)
    mod = importlib.import_module('sa.props.' + pid.lower())
    try:
        mod.run(ck)
    except check.Missing as e:
        ck.missing.append(str(e))
    kn = known().get(pid, [])
    viol, old = [], []
    for name, w, text in ck.viol:
        for key, ktext in kn:
            if key == name:
                old.append((key, ktext))
                break
        else:
            viol.append((name, w, text))
    funcs = set(ck.functions)
    for I in ck.interps:
        funcs |= set(I.functions_seen)
    decided = len(ck.proved) + len(ck.agreed) + len(ck.viol)
    cov = {
        'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or '').strip(),
        'obligations': decided + len(ck.undec),
        'proved_by_normal_form': len(ck.proved),
        'agreed_by_random_interpretation': len(ck.agreed),
        'violated': len(ck.viol),
        'undecided': [list(x) for x in ck.undec][:40],
        'functions_analysed': sorted(str(f) for f in funcs),
        'obligation_names': [n for n, _ in ck.proved + ck.agreed][:200],
        'samples': ck.samples,
        'known_findings': [k for k, _ in old],
    }
    cov.update(ck.facts)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d proved by normal form, %d agreed under random interpretation, '
          '%d violated, %d undecided; %d functions analysed (%.1fs)' % (
              pid, decided + len(ck.undec), len(ck.proved), len(ck.agreed), len(ck.viol),
              len(ck.undec), len(funcs), time.time() - t0))
    for n, w, t in ck.undec:
        print('UNDECIDED %s [%s]: %s' % (n, w, t[:300]))
    for k, t in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w') as f:
            for n, w, t in viol:
                f.write('rule: %s\nwhere: %s\n%s\n\n' % (n, w, t))
        for n, w, t in viol[:8]:
            print('  rule %s broken at %s\n    %s' % (n, w, t[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    if ck.missing:
        print('ANALYSIS-BROKEN: analysed entity not found: %s' % ', '.join(sorted(set(ck.missing))))
        sys.stdout.flush()
        os._exit(2)
    if decided == 0:
        print('ANALYSIS-BROKEN: no obligation could be decided')
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


BASE_ASSUMPTIONS = [
    'real arithmetic: floating-point rounding is not modelled',
    'the models of numpy, jax, scipy.sparse, PETSc and basix in sa/models.py are faithful',
    'normal-form mismatches are withdrawn only when both terms agree under random interpretation',
]

if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(3)
