#!/usr/bin/env python3
"""usage: check.py <property id>   decides one property on /repo's current tree (see DESIGN.md)"""
import fcntl
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))


def source_hash():
    h = hashlib.sha256()
    files = []
    for root in ('src', 'python', '.cargo'):
        for d, dn, fs in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in fs:
                if f.endswith(('.rs', '.py', '.pyi', '.toml')) and f != 'self_schema.py':
                    files.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'generate_self_schema.py'):
        files.append(os.path.join(REPO, f))
    files += [os.path.join(HERE, 'driver', 'main.rs'), os.path.join(HERE, 'driver', 'extract.sh')]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()


def facts():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_hash()
        kf = os.path.join(WORK, 'facts.key')
        fj = os.path.join(WORK, 'facts.json')
        if os.path.exists(kf) and os.path.exists(fj) and open(kf).read() == key:
            return fj
        if os.path.exists(kf):
            os.remove(kf)
        r = subprocess.run(['bash', os.path.join(HERE, 'driver', 'extract.sh'), WORK], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print('ERROR: could not extract facts from the source')
            sys.exit(3)
        with open(kf, 'w') as f:
            f.write(key)
        return fj


class Report:
    def __init__(self, pid, prog, repo):
        self.pid = pid
        self.p = prog
        self.repo = repo
        self.obs = []
        self.counts = {}
        self.samples = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, key, ok, detail='', where=''):
        """one decided obligation; key must not contain line numbers"""
        self.obs.append({'rule': rule, 'key': f'{rule}:{key}', 'ok': bool(ok), 'detail': detail, 'where': where})
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        n = self.counts.get(name, 0)
        self.ob('floor', name, n >= minimum, f'{n} instances of `{name}` analysed, at least {minimum} were confirmed by hand: the rule lost its anchor')


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out[d['key']] = d['what']
    return out


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        facts()
        print('setup: facts extracted')
        return
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fj = facts()
    import mir
    prog = mir.Prog(fj)
    t1 = time.time()
    mod = importlib.import_module('c' + pid[1:].lower())
    rep = Report(pid, prog, REPO)
    try:
        mod.run(prog, rep, tier)
    except Exception as e:
        traceback.print_exc(file=sys.stdout)
        rep.ob('anchor', f'{type(e).__name__} in the rule', False, f'a construct the rule is anchored in was not found in the source: {e!r}')
    known = known_findings(pid)
    fails = [o for o in rep.obs if not o['ok']]
    viol, seenk = [], set()
    reported = set()
    for o in fails:
        if o['key'] in known:
            seenk.add(o['key'])
        elif o['key'] not in reported:
            reported.add(o['key'])
            viol.append(o)
    for k in sorted(seenk):
        print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    for n, c in sorted(rep.counts.items()):
        print(f'analysed: {n} = {c}')
    print(f'obligations: {len(rep.obs)} decided, {len(rep.obs) - len(fails)} discharged, {len(seenk)} known findings, {len(viol)} violations')
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    dist = len({o['key'] for o in rep.obs})
    samp = [o for o in rep.obs if o['ok']]
    step = max(1, len(samp) // 12)
    evd = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked program (MIR of the crate at /repo, resolved callees) and of the Python stubs where named. '
                           'Every obligation is one construct (call site, field, path class, table row) decided from the source on this run.',
            'rules': rep.rules,
            'obligations': len(rep.obs), 'discharged': len(rep.obs) - len(fails), 'distinct_obligations': dist,
            'counts': rep.counts, 'bodies_in_program': len(prog.fns), 'adts_in_program': len(prog.adts),
            'known_findings': sorted(seenk),
            'samples': [{k: o[k] for k in ('key', 'detail', 'where')} for o in samp[::step][:14]],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(ev, f'{pid}.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    rp = os.path.join(ev, f'{pid}.violations.txt')
    if os.path.exists(rp):
        os.remove(rp)
    print(f'wall: facts {t1 - t0:.1f}s, rules {time.time() - t1:.1f}s')
    if viol:
        with open(rp, 'w') as f:
            for o in viol:
                f.write(f"{o['key']}\n  rule: {rep.rules.get(o['rule'], '')}\n  at: {o['where']}\n  {o['detail']}\n")
        for o in viol[:40]:
            print(f"  {o['key']}  at {o['where']}\n      {o['detail']}")
        print(f'VIOLATION property={pid} replay={rp}')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ERROR: the check itself failed')
        sys.exit(4)
