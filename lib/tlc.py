"""Running TLC on the modules in spec/."""
import json, os, re, subprocess
from env import *

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Result:
    pass


def start(mod, cfg=None, env=None, workers=4, extra=(), jvm=(), heap='6g'):
    """start TLC on spec/mc/<mod>.tla; returns a handle for finish()"""
    d = os.path.join(SPEC, 'mc')
    meta = os.path.join(scratch(), 'tlc_%s_%d' % (cfg or mod, os.getpid()))
    k = 0
    while True:         # (checks may start several at the same time)
        try:
            os.makedirs(meta + '_%d' % k)
            break
        except FileExistsError:
            k += 1
    meta += '_%d' % k
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    tmp = os.path.join(meta, 'tmp')
    os.makedirs(tmp)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx' + heap, '-Djava.io.tmpdir=' + tmp, '-cp', JARS,
           '-DTLA-Library=' + SPEC] + list(jvm) + ['tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', (cfg or mod) + '.cfg'] + list(extra) + [mod + '.tla']
    out = open(os.path.join(meta, 'out'), 'w+')
    h = Result()
    h.p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT)
    h.out = out
    h.name = cfg or mod
    return h


def finish(h, timeout=None, must_pass=True):
    try:
        h.p.wait(timeout)
    except subprocess.TimeoutExpired:
        h.p.kill()
        h.p.wait()
        raise ToolError('TLC on %s: out of time' % h.name)
    h.out.flush()
    h.out.seek(0)
    text = h.out.read()
    r = Result()
    r.text = text
    r.ok = h.p.returncode == 0 and 'Model checking completed. No error has been found.' in text
    r.rc = h.p.returncode
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    r.generated, r.states = ([int(x.replace(',', '')) for x in m[-1]] if m else (0, 0))
    if must_pass and not r.ok:
        tail = '\n'.join(l for l in text.splitlines() if not re.match(r'(Parsing|Semantic|Linting)', l))
        raise ToolError('TLC on %s:\n%s' % (h.name, tail[-3500:]))
    return r


def run(mod, **k):
    timeout = k.pop('timeout', 600)
    must = k.pop('must_pass', True)
    return finish(start(mod, **k), timeout, must)


def transitions(mod, cfg=None, **k):
    """run TLC and read the transitions it emitted: (result, list of (from, to, event, outputs))"""
    f = os.path.join(scratch(), 'tr_%s.ndjson' % (cfg or mod))
    if os.path.exists(f):
        os.unlink(f)
    open(f, 'w').close()
    env = dict(k.pop('env', {}) or {})
    env['MC_OUT'] = f
    r = run(mod, cfg=cfg, env=env, **k)
    trs = []
    with open(f) as fh:
        for line in fh:
            v = json.loads(line)
            if isinstance(v, str):
                v = json.loads(v)
            trs.append(v)
    trs.sort(key=lambda v: json.dumps(v, sort_keys=True))
    os.unlink(f)
    log('TLC %s: %d states, %d transitions' % (cfg or mod, r.states, len(trs)))
    return r, trs


def simulate(mod, num, depth, seed, cfg=None, timeout=300, env=None):
    """behaviours chosen by TLC's simulator: (result, list of behaviours); a behaviour is a list of
    (state before, event, outputs, state after)"""
    f = os.path.join(scratch(), 'sim_%s_%d.ndjson' % (cfg or mod, time.time_ns()))
    open(f, 'w').close()
    h = start(mod, cfg=cfg, env=dict(env or {}, MC_OUT=f), workers=1,
              extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
    r = finish(h, timeout, must_pass=False)
    m = re.findall(r'The number of states generated: (\d+)', r.text)
    if not m or 'Error' in r.text:
        raise ToolError('TLC simulation of %s:\n%s' % (cfg or mod, r.text[-3000:]))
    r.generated = int(m[-1])
    beh, cur, prev = [], None, None
    seen = set()
    with open(f) as fh:
        for line in fh:
            v = json.loads(line)
            if isinstance(v, str):
                v = json.loads(v)
            if v['n'] == 1:
                first = v['s']
            else:
                if v['n'] == 2:
                    cur = []
                    beh.append(cur)
                    prev = first
                cur.append((prev, v['e'], v['o'], v['s']))
            prev = v['s']
            seen.add(json.dumps(v['s'], sort_keys=True))
    os.unlink(f)
    beh = [b for b in beh if b]
    r.states = len(seen)
    log('TLC simulation %s: %d behaviours, %d steps, %d distinct states' % (cfg or mod, len(beh), sum(map(len, beh)), r.states))
    return r, beh


def simulated_rows(mod, cfg, num, depth, seed, timeout=300):
    """what the invariants of a configuration emit along simulated behaviours"""
    f = os.path.join(scratch(), 'simr_%s.ndjson' % cfg)
    open(f, 'w').close()
    h = start(mod, cfg=cfg, env={'MC_OUT': f}, workers=1, jvm=['-Xss64m'],
              extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
    r = finish(h, timeout, must_pass=False)
    m = re.findall(r'The number of states generated: (\d+)', r.text)
    if not m or 'Error' in r.text:
        raise ToolError('TLC simulation of %s:\n%s' % (cfg, r.text[-3000:]))
    rows = {}
    with open(f) as fh:
        for line in fh:
            v = json.loads(line)
            if isinstance(v, str):
                v = json.loads(v)
            rows[json.dumps(v, sort_keys=True)] = v
    os.unlink(f)
    r.generated, r.states = int(m[-1]), len(rows)
    log('TLC simulation %s: %d states, %d distinct rows' % (cfg, r.generated, len(rows)))
    return r, [rows[k] for k in sorted(rows)]
