"""C21: the session types of the library, linked into a harness of their own."""
import json, os, random, subprocess
from env import *
import env, tlc
from graph import Graph
from runner import *
from checks import prop, big


def sessions_bin():
    with env._Lock('sessions'):
        ensure_lockfile()
        env._cargo(['build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness/sessions/Cargo.toml'),
                    '--target-dir', os.path.join(BUILD, 'sessions')], 'the library with the session harness')
        import shutil
        f = os.path.join(scratch(), 'sessions')
        shutil.copy(os.path.join(BUILD, 'sessions/debug/sessions'), f)
    return f


def run_sessions(mode, f):
    r = subprocess.run([sessions_bin(), mode, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    if r.returncode:
        raise ToolError('session harness: ' + r.stderr[-1500:])
    v = json.loads(r.stdout.splitlines()[-1])
    v['stderr'] = r.stderr[-500:]
    return v


@prop
def C21(ev):
    import threading
    th = threading.Thread(target=sessions_bin)      # builds while TLC runs
    th.start()
    cfg = big('MC_expiry', 'MC_expiry_thorough')
    out = os.path.join(scratch(), 'expiry')
    open(out, 'w').close()
    r = tlc.run('MC_expiry', cfg=cfg, env={'MC_OUT': out}, workers=4)
    ev.model(r)
    n = 0
    rows = os.path.join(scratch(), 'expiry_rows')
    with open(out) as fh, open(rows, 'w') as fo:
        for line in fh:
            for x in json.loads(json.loads(line)):
                n += 1
                fo.write(json.dumps(x) + '\n')
    th.join()
    v = run_sessions('rows', rows)
    if 'bad' in v:
        f = replay_file('C21', 'expiry', v)
        raise Violation(f, 'expiry of [interval, last activity, now, expired] %s' % json.dumps(v['bad']))
    if v['done'] != 2 * n:
        raise ToolError('only %s of %d rows' % (v, 2 * n))
    log('%d expiry decisions' % v['done'])
    ev.add('expiry_decisions', v['done'])
    for cfg in big(['MC_keepalive'], ['MC_keepalive', 'MC_keepalive4']):
        r, trs = tlc.transitions('MC_keepalive', cfg=cfg)
        ev.model(r, len(trs))
        g = Graph(trs, init=[x['f'] for x in trs if not any(x['f'].values())][0])
        scripts, names = [], []
        rnd = random.Random(SEED)
        f = os.path.join(scratch(), cfg + '.scripts')
        with open(f, 'w') as fo:
            for rep in range(big(1, 3)):
                paths, cov = g.tours(SEED + rep, 40)
                for p in paths:
                    ids = sorted(trs[0]['f'])
                    nm = dict(zip(ids, rnd.choice([ids, ['', 'x', 'X', 'y'], ['é', 'e', 'é ', '\u0001'], ['c1', 'c10', 'c100', 'c']])))
                    ops = []
                    for k in p:
                        a, t, e, o = g.edges[k]
                        t = g.states[t]
                        e = dict(e, id=nm[e['id']])
                        o = o[0]
                        ops.append([e, {'expired': sorted((nm[x] for x in o['expired']), key=lambda s: s.encode()), 'count': o['count'],
                                        'held': {nm[i]: x for i, x in t.items() if x},
                                        'ended': nm[o['ended']] if o['ended'] else None}])
                    fo.write(json.dumps({'ids': [nm[i] for i in ids], 'ops': ops}) + '\n')
                    if not scripts:
                        ev.sample([x[0] for x in ops[:6]])
                    scripts.append(p)
        v = run_sessions('replay', f)
        if 'bad' in v:
            rf = replay_file('C21', cfg, {'bad': v['bad'], 'stderr': v['stderr'],
                             'script': open(f).read().splitlines()[v['bad'].get('script', 0)]})
            raise Violation(rf, 'the session table: %s %s' % (json.dumps(v['bad']), v['stderr']))
        if v['done'] != len(scripts):
            raise ToolError('only %d of %d scripts' % (v['done'], len(scripts)))
        log('%s: %d scripts, %d steps' % (cfg, v['done'], v['steps']))
        ev.traces += v['done']
        ev.count('session_operations', v['steps'])
    ev.assume += ['the list of expired sessions is asked at the present, sessions expire at least ten seconds from it']


# ------------------------------------------------------------------------------------ C22
def codec_bin():
    with env._Lock('sessions'):
        ensure_lockfile()
        env._cargo(['build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness/codec/Cargo.toml'),
                    '--target-dir', os.path.join(BUILD, 'sessions')], 'the library with the codec harness')
        import shutil
        f = os.path.join(scratch(), 'codec')
        shutil.copy(os.path.join(BUILD, 'sessions/debug/codec'), f)
    return f


def run_codec(binary, jobs):
    f = os.path.join(scratch(), 'codec_jobs')
    with open(f, 'w') as fh:
        for j in jobs:
            fh.write(json.dumps(j, separators=(',', ':')) + '\n')
    r = subprocess.run([binary, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    os.unlink(f)
    if r.returncode or not r.stdout:
        return {'bad': {'job': None, 'got': 'exit status %d: %s' % (r.returncode, r.stderr[-600:])}}
    return json.loads(r.stdout.splitlines()[-1])


def codec_job(rnd, rows, side, cap=None):
    """a stream of packets (packet, bytes), through the decoder (client) or the encoder (server)"""
    data = b''.join(bytes(b) for _, b in rows)
    j = {'read': side == 'client', 'cap': cap or rnd.choice([4096, 4096, 4096, 1, 2, 16, 100, 1024, 65536]),
         'bytes': data.hex(), 'packets': [p for p, _ in rows], 'cuts': []}
    if side != 'client' and j['cap'] < 16:
        j['cap'] = 4096
    if side == 'client':
        x = rnd.random()
        if x < 0.3:
            j['cuts'] = sorted(rnd.sample(range(1, len(data)), min(len(data) - 1, rnd.choice([1, 3, 20]))))
        elif x < 0.5:
            # at the borders of packets and next to them
            at, c = 0, set()
            for _, b in rows:
                at += len(b)
                c.add(at + rnd.choice([-1, 0, 0, 1, 2]))
            j['cuts'] = sorted(k for k in c if 0 < k < len(data))[:150]
        elif x < 0.6 and len(data) < 300:
            j['cuts'] = list(range(1, len(data)))
    return j


@prop
def C22(ev):
    import threading
    box = []
    th = threading.Thread(target=lambda: box.append(codec_bin()))
    th.start()
    jobs, sides = [], []
    rnd = random.Random(SEED)
    import concurrent.futures
    names = ['MC_codec_%s_%s' % (s, k) for s in ('client', 'server') for k in ('core', 'full')]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        models = dict(zip(names, ex.map(lambda n: tlc.transitions('MC_codec', cfg=n, workers=1), names)))
    for side in ('client', 'server'):
        r, trs = models['MC_codec_%s_core' % side]
        ev.model(r, len(trs))
        g = Graph(trs, init='none')
        for rep in range(big(2, 10)):
            paths, cov = g.tours(SEED + rep, 60)
            for p in paths:
                jobs.append(codec_job(rnd, [(g.edges[k][2], g.edges[k][3]) for k in p], side, cap=4096 if rep == 0 else None))
        ev.count('transitions_replayed', cov)
        r, trs = models['MC_codec_%s_full' % side]
        ev.model(r, len(trs))
        rows = [(v['e'], v['o']) for v in trs]
        for rep in range(big(2, 20)):
            rnd.shuffle(rows)
            n = 0
            while n < len(rows):
                k = rnd.choice([1, 1, 2, 5, 20, 60])
                jobs.append(codec_job(rnd, rows[n:n + k], side))
                n += k
        ev.sample({'side': side, 'packet': rows[0][0] if len(rows[0][1]) < 500 else rows[0][0]['t'], 'bytes': rows[0][1][:100]})
    th.join()
    if not box:
        box.append(codec_bin())
    v = run_codec(box[0], jobs)
    if 'bad' in v:
        k = v['bad'].get('job')
        rep = {'property': 'C22', 'bad': v['bad']}
        if k is not None:
            rep['job'] = jobs[k]
            rep['again'] = run_codec(box[0], [jobs[k]])
        f = replay_file('C22', 'codec', rep)
        raise Violation(f, '%s: %s' % ('decoding' if k is not None and jobs[k]['read'] else 'encoding', json.dumps(v['bad'])[:600]))
    want = sum(len(j['packets']) for j in jobs)
    if v['done'] != want:
        raise ToolError('only %s of %d packets' % (v, want))
    log('%d packets in %d streams' % (want, len(jobs)))
    ev.traces += len(jobs)
    ev.add('packets_decoded', sum(len(j['packets']) for j in jobs if j['read']))
    ev.add('packets_encoded', sum(len(j['packets']) for j in jobs if not j['read']))
