"""Decides one property: main.py ID [--dump FILE]. Exit 0 held, 1 violated, 2 could not be analysed."""
import json, os, sys, time, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
from build import VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(pid):
    out = set()
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                out.add(l.split(' key=', 1)[1])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    path = None
    if '--dump' in sys.argv:
        path = sys.argv[sys.argv.index('--dump') + 1]
    own = path is None
    try:
        if own:
            fd, path = tempfile.mkstemp(prefix='metaprog', suffix='.json')
            os.close(fd)
            build.dump(path)
        from mir import Program
        prog = Program(path)
    except build.BuildError as x:
        print('cannot analyse: %s' % x)
        return 2
    finally:
        if own and path and os.path.exists(path):
            os.unlink(path)
    import checks
    res = checks.run(pid, prog, tier)
    wall = time.time() - t0
    return report(pid, tier, res, wall)


def report(pid, tier, res, wall):
    slots = sorted(res.slots.items(), key=repr)
    kn = known(pid)
    bad, listed, undecided = [], [], list(res.undecided)
    discharged = 0
    total = 0
    for (p, rule, where), s in slots:
        discharged += s['ok']
        total += s['ok'] + s['bad'] + s['open']
        key = '%s @ %s' % (rule, where)
        if s['bad']:
            (listed if key in kn else bad).append((key, s))
        elif s['open']:
            undecided.append('%s: %s' % (key, s['why']))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': res.explanation,
            'obligations': total, 'discharged': discharged,
            'rules': [{'rule': r, 'where': w, 'discharged': s['ok'], 'violated': s['bad'], 'undecided': s['open']}
                      for (_, r, w), s in slots],
            'analysed': res.stats,
            'functions': sorted(res.fns),
            'undecided': undecided,
        },
        'assumptions': res.assumptions,
        'wall_s': round(wall, 3), 'violations': len(bad),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, pid + '.replay.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    if bad:
        with open(rp, 'w') as f:
            for key, s in bad:
                f.write('VIOLATED RULE: %s\n' % key)
                f.write('  what: %s\n' % (s['ex'][0],))
                for x in s['ex'][1]:
                    f.write('    %s\n' % (x,))
        ev['coverage']['violated'] = [{'key': k, 'what': str(s['ex'][0])} for k, s in bad]
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for key, s in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, s['ex'][0]))
    for u in undecided:
        print('undecided: %s' % u[:300])
    for key, s in bad:
        print('%s: %s' % (key, s['ex'][0]))
        for x in s['ex'][1]:
            print('    %s' % (x,))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations over %d functions hold' % (pid, discharged, len(res.fns)))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
