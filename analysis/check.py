"""Decides one property for the current tree: python3 analysis/check.py C01"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


def known():
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                r.append(l[len('finding: '):])
    return r


def main(pid):
    import extract as X
    import lib as L
    import importlib
    t0 = time.time()
    rep = L.Report(pid)
    prog = None
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    mod = None
    err = None
    try:
        import rules
        crates = X.extract()
        prog = L.Program(crates)
        rules.RULES[pid](prog, rep)
    except X.BuildError as e:
        rep.ob('analysable', 'workspace', False, 'the tree does not build: ' + str(e)[-600:])
    except L.Missing as e:
        rep.ob('anchor', str(e), False, 'not found: ' + str(e))
    except Exception:
        err = traceback.format_exc()
        print(err, file=sys.stderr)
        if os.environ.get('PFPSA_DEBUG'):
            raise
        rep.undecided.append({'rule': 'analysis', 'where': pid, 'detail': err[-1500:]})
    kn = known()
    new = []
    for v in rep.violations:
        k = 'property=%s %s' % (pid, v['key'])
        if k in kn:
            print('KNOWN-FINDING: ' + k)
        else:
            new.append(v)
    st = prog.stats if prog else {}
    cov = {
        'explanation': L_EXPL,
        'rules': rep.rules,
        'obligations': sum(r['instances'] for r in rep.rules.values()),
        'discharged': sum(r['hold'] for r in rep.rules.values()),
        'functions_analysed': len(st.get('functions', ())),
        'paths': st.get('paths', 0),
        'call_sites_followed': st.get('calls', 0),
        'loops_to_fixpoint': st.get('loops', 0),
        'library_calls_kept_opaque': sorted(st.get('opaque', ())),
        'undecided': rep.undecided,
        'instances': {k: sorted(L.fname(x) for x in v)[:40] for k, v in rep.instances.items()},
        'known_findings': len(rep.violations) - len(new),
    }
    out = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'),
           'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    out['coverage']['violation_reports'] = new
    path = os.path.join(ev, pid + '.json')
    tmp = path + '.%d' % os.getpid()
    json.dump(out, open(tmp, 'w'), indent=1)
    os.rename(tmp, path)
    for v in new:
        print('%s: %s %s: %s' % (pid, L.fname(v['where']), v['span'], v['detail']))
    if new:
        print('VIOLATION property=%s replay=evidence/%s.json' % (pid, pid))
        return 1
    if err:
        # no answer is neither a violation nor a pass
        print('%s: NO ANSWER, the analysis does not understand this tree: %s' % (
            pid, err.strip().splitlines()[-1]))
        return 2
    print('%s: %d obligations in %d rules hold, %d undecided, %.1f s' % (
        pid, cov['obligations'], len(rep.rules), len(rep.undecided), time.time() - t0))
    return 0


L_EXPL = ('Interprocedural provenance and typestate dataflow over the MIR that rustc produces for '
          'the current tree: every branch is followed, loops are run to a fixpoint, every rule is '
          'an obligation on the resulting paths, effects and value provenances.')
ASSUME = ['library functions behave as analysis/models.py describes them',
          'rustc\'s MIR represents the program that is built']

if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    r = []
    t = threading.Thread(target=lambda: r.append(main(sys.argv[1])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(r[0] if r else 2)
