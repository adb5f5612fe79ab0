"""Running scripts against the code under test, verdicts, evidence."""
import json, os, subprocess, sys, time
from env import *

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    def __init__(self, replay, text):
        self.replay = replay
        self.text = text


_drivers = set()
import atexit
atexit.register(lambda: [p.kill() for p in list(_drivers)])


def run_job(hdr, jobs, timeout=840):
    """run driver scripts; returns the summary and the list of deviations"""
    d, driver = bins()
    sc = os.path.join(scratch(), 'job%d' % int(time.time() * 1e6))
    os.makedirs(sc)
    h = {'bin': os.path.join(d, 'ratelmq'), 'scratch': sc, 'workers': 6,
         'envs': [{'TOKIO_WORKER_THREADS': str(k)} for k in (1, 2, 4, 2, 1, 3)]}
    h.update(hdr)
    f = os.path.join(sc, 'job.ndjson')
    with open(f, 'w') as fh:
        fh.write(json.dumps(h) + '\n')
        for j in jobs:
            fh.write(json.dumps(j, separators=(',', ':')) + '\n')
    p = subprocess.Popen([driver, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    _drivers.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        raise ToolError('driver: out of time')
    _drivers.discard(p)
    if p.returncode != 0:
        raise ToolError('driver: %s %s' % (p.returncode, err[-2000:]))
    bad, summ, sf = [], None, None
    for line in out.splitlines():
        v = json.loads(line)
        if 'bad' in v:
            bad.append(v['bad'])
        elif 'startfail' in v:
            sf = v['startfail']
        else:
            summ = v
    os.unlink(f)
    summ['startfail'] = sf
    summ['hdr'] = {k: v for k, v in h.items() if k not in ('bin', 'scratch')}
    return summ, bad


def replay_file(prop, name, content):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(f, 'w') as fh:
        json.dump(content, fh, indent=1)
    return f


def check_job(prop, hdr, jobs, describe=None, what='replay'):
    """run scripts; raise Violation for the first deviation"""
    summ, bad = run_job(hdr, jobs)
    byid = {j['id']: j for j in jobs}
    if bad:
        b = bad[0]
        # does it happen again, alone?
        again = 0
        for _ in range(2):
            _, b2 = run_job(dict(hdr, workers=1, max_bad=1), [byid[b['id']]])
            again += bool(b2)
        rep = {'property': prop, 'kind': what, 'header': {k: v for k, v in hdr.items()}, 'deviation': b,
               'reproduced': '%d of 2 alone' % again,
               'script': byid[b['id']]['ops'],
               'history': [byid[i]['ops'] for i in b['history']] if again == 0 else [],
               'description': describe(b['id']) if describe else None}
        f = replay_file(prop, '%s-%d' % (what, b['id']), rep)
        raise Violation(f, '%s: script %d, operation %d, connection %s: expected %s, got %s %s' % (
            b['kind'], b['id'], b['op'], b['conn'], b['exp'], b['got'], ('[' + b['stderr'] + ']') if b['stderr'] else ''))
    if summ['startfail']:
        f = replay_file(prop, what + '-start', {'property': prop, 'kind': 'start', 'header': hdr, 'stderr': summ['startfail']})
        raise Violation(f, 'the broker does not start with a valid configuration: %s' % summ['startfail'])
    if summ['done'] != len(jobs):
        raise ToolError('only %d of %d scripts were run' % (summ['done'], len(jobs)))
    log('%s: %d scripts, %d sent, %d received, %d ms' % (what, summ['done'], summ['sent'], summ['recv'], summ['wall_ms']))
    return summ


class Evidence:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assume = []

    def model(self, r, ntrans=None):
        self.states += r.states
        self.transitions += r.generated if ntrans is None else ntrans

    def add(self, k, v):
        self.extra[k] = v

    def count(self, k, v):
        self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def write(self, violations):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.extra)
        d = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
             'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - T0, 2), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(d, fh, indent=1, ensure_ascii=False)


def known(prop):
    """the entries of the known-findings file for a property: key -> text"""
    r = {}
    with open(KNOWN) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                r[key] = text
    return r


def known_finding(prop, key):
    k = known(prop)
    if key in k:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, key, k[key]), flush=True)
        return True
    return False
