"""Findings, known findings, evidence and exit codes shared by all checks."""
import json
import os
import time

from .interp import FAILED
from .loader import AnalysisBroken, Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    """lines `finding: property=<id> key=<key> <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith(f'finding: property={pid} key='):
                    rest = line.split('key=', 1)[1]
                    key, _, text = rest.partition(' ')
                    out[key] = text
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.repo = Repo()
        self.findings = {}
        self.obs = []
        self.unknown = []
        self.stats = {}
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.floors = []

    def ob(self, name, status='ok', detail=''):
        """an obligation: ok | unknown | violated"""
        self.obs.append((name, status, detail))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def violation(self, key, message, where, path=()):
        key = str(key).replace(' ', '_')
        if key not in self.findings:
            self.findings[key] = {'key': key, 'message': message, 'where': where, 'path': list(path)}

    def floor(self, name, got, least):
        """the analysis must have covered at least what was confirmed by hand on the reference tree"""
        self.floors.append((name, got, least))

    def fresh(self):
        known = known_findings(self.pid)
        return [k for k in self.findings if k not in known]

    def finish(self):
        known = known_findings(self.pid)
        new, old = [], []
        for k, f in sorted(self.findings.items()):
            (old if k in known else new).append(f)
        short = [f'{n}: {g} instances analysed, at least {l} expected' for n, g, l in self.floors if g < l]
        if short and not new:
            # what was analysed is less than what is there: no statement about the property; violations that were found stand
            raise AnalysisBroken('; '.join(short))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        status = {}
        for n, s, d in self.obs:
            status[s] = status.get(s, 0) + 1
        bad = [f'{n}: {d}'[:200] for n, s, d in self.obs if s == 'unknown']
        cov = {'explanation': self.rule, 'obligations': len(self.obs), 'discharged': status.get('ok', 0), 'undecided': status.get('unknown', 0),
               'undecided_list': bad[:60], 'source_digest': self.repo.digest, 'modules': len(self.repo.modules), 'functions': len(self.repo.all_functions),
               'samples': self.samples[:12] or [n for n, s, d in self.obs[:8]], 'counts': self.stats, 'floors': [f'{n}: {g} >= {l}' for n, g, l in self.floors],
               'known_findings': [f['key'] for f in old], 'constructs_without_a_model': dict(sorted(FAILED.items())[:20])}
        rec = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.path.join(ev, f'{self.pid}.json'), 'w', encoding='utf-8') as f:
            json.dump(rec, f, indent=1)
        for f in old:
            print(f'KNOWN-FINDING: property={self.pid} {f["where"]}: {known[f["key"]] or f["message"]}')
        rp = os.path.join(ev, f'{self.pid}.violations.json')
        if os.path.exists(rp):
            os.remove(rp)
        if new:
            with open(rp, 'w', encoding='utf-8') as f:
                json.dump(new, f, indent=1)
            for f in new:
                print(f'{f["where"]}: {f["message"]}')
                for s in f['path']:
                    print(f'    {s}')
                print(f'    [rule instance {f["key"]}]')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f'{self.pid}: held; {len(self.obs)} obligations, {status.get("ok", 0)} discharged, {status.get("unknown", 0)} undecided, {len(old)} known; {rec["wall_s"]}s')
        return 0
