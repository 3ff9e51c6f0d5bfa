#!/usr/bin/env python3
"""check.py PROPERTY  -- extracts the MIR of /repo's working tree and decides one property."""
import collections
import fnmatch
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SA_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(20000)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d, ds, f in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
        fs += [os.path.join(d, x) for x in f if x.endswith(('.rs', '.toml', '.lock'))]
    fs += [os.path.join(V, 'driver/src/main.rs'), os.path.join(V, 'run_extract.sh')]
    for f in sorted(fs):
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def extract():
    """MIR dump of the current tree (reused only for a byte-identical tree)"""
    out = os.path.join(V, '.build', 'mir-%s.json' % tree_hash())
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        import fcntl
        with open(os.path.join(V, '.build', 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                r = subprocess.run(['bash', os.path.join(V, 'run_extract.sh'), REPO, tmp], timeout=600)
                if r.returncode:
                    print('extraction failed')
                    sys.exit(3)
                old = [f for f in os.listdir(os.path.dirname(out)) if f.startswith('mir-')]
                for f in old:
                    p = os.path.join(os.path.dirname(out), f)
                    if time.time() - os.path.getmtime(p) > 1800:
                        os.unlink(p)
                os.rename(tmp, out)
    return out


class Timeout(BaseException):
    pass


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    mir = extract()
    import core
    import registry
    fn, floor = registry.CHECKS[pid]
    prog = core.Prog(mir)
    c = core.Check(pid, prog, tier, seed)

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(640 if tier == 'quick' else 820)
    try:
        fn(c)
    except core.Missing as e:
        c.add('anchor', 'missing', '', str(e))
    except Timeout:
        c.add('time', 'undecided', '', 'time limit reached; the remaining obligations were not decided')
    except core.SOFT as e:
        c.add('analysis', 'undecided', '', 'analysis stopped: %s' % str(e)[:300])
    except Exception as e:  # an engine limit is never an alarm
        import traceback
        c.add('analysis', 'undecided', '', 'analysis stopped: %r' % (e,))
        if os.environ.get('SA_TRACE'):
            traceback.print_exc()
    signal.alarm(0)
    # several evaluations of one obligation count once, with the worst status
    known = []
    kf = os.path.join(V, 'known-findings.json')
    if os.path.exists(kf):
        known = json.load(open(kf)).get('known', [])
    kp = {k['key']: k for k in known if k['property'] == pid}
    cnt = collections.Counter()
    viol, found = [], {}
    for o in c.obs:
        st = o.status
        if st in ('violated', 'missing'):
            if o.key in kp:
                st = 'known'
                found[o.key] = o
            else:
                viol.append(o)
        cnt[st] += 1
    total = sum(v for k, v in cnt.items() if k not in ('vacuous', 'missing'))
    # where a part was not analysed to the end, fewer obligations say nothing
    stopped = any(o.key in ('time', 'analysis') or o.status == 'undecided' and o.text.startswith(('time limit', 'analysis stopped')) for o in c.obs)
    if total < floor and not stopped:
        o = core.Ob('obligations', 'missing', '', 'only %d obligations were generated, %d expected' % (total, floor))
        viol.append(o)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    wall = round(time.time() - t0, 2)
    samples = [dict(obligation=o.key, status=o.status, where=o.where, rule=o.rule) for o in c.obs[:6]]
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=wall, violations=len(viol),
              coverage=dict(
                  explanation='value graphs of the listed functions, extracted from the MIR of the current tree, were compared with the specification; every obligation is one guard/value pair and holds for all inputs',
                  obligations=total, proved=cnt['proved'], undecided=cnt['undecided'], known_findings=cnt['known'], vacuous=cnt['vacuous'],
                  functions_analysed=len(c.fns), functions=sorted(c.fns)[:400], rules=sorted({o.rule for o in c.obs if o.rule}), samples=samples,
                  undecided_list=[dict(obligation=o.key, why=o.text[:300]) for o in c.obs if o.status == 'undecided'][:60], notes=c.notes[:60]),
              assumptions=registry.ASSUMPTIONS)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s [%s]: %d obligations, %d proved, %d undecided, %d vacuous; %d functions analysed; %.1f s' % (pid, tier, total, cnt['proved'], cnt['undecided'], cnt['vacuous'], len(c.fns), wall))
    for k, o in found.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kp[k].get('what', o.text)[:300]))
    if viol:
        rp = os.path.join(V, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for o in viol:
                f.write('%s  [%s]\n  at %s\n  rule: %s\n  %s\n' % (o.key, o.status, o.where, o.rule, o.text))
                for l in o.witness or []:
                    f.write('    ' + l + '\n')
        for o in viol[:20]:
            print('  broken: %s at %s: %s' % (o.key, o.where, o.text[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
