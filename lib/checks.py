"""One function per property."""
import json, os, random
from env import *
import tlc, wire
from graph import Graph
from conc import Script
from runner import *

CHECKS = {}
# made by the password tool of the repository (user: password)
PASSWD = {'user': 'secret'}
CREDS = {'anon': (None, None), 'wrong': ('nobody', 'x'), 'good': ('user', 'secret')}
_pw = []


def passwd():
    """a password file, written by the real tool"""
    if not _pw:
        import subprocess
        d, _ = bins()
        f = os.path.join(scratch(), 'passwd')
        open(f, 'w').close()
        for u, p in PASSWD.items():
            r = subprocess.run([os.path.join(d, 'ratelmq-passwd'), '-f', f, '-u', u, '-p', p], capture_output=True, text=True)
            if r.returncode:
                raise ToolError('password tool: ' + r.stderr)
        _pw.append(open(f).read())
    return _pw[0]



def prop(f):
    CHECKS[f.__name__] = f
    return f


def opts_for(o):
    o = dict(o)
    o.setdefault('creds', CREDS)
    return o


def compact(g, path):
    """a behaviour, readably"""
    r = []
    for k in path:
        e, o = g.edges[k][2], g.edges[k][3]
        s = e['op'] + ' c%s' % e.get('c')
        for a in ('id', 'cred', 'fs', 'topic', 'l'):
            if a in e:
                s += ' %s=%s' % (a, json.dumps(e[a]))
        if o:
            s += ' -> ' + ', '.join('c%s:%s' % (c, x['t'] + (str(x['code']) if 'code' in x else '')) for c, x in o)
        r.append(s)
    return r


def broker_replay(ev, prop, mod, opts, hdr, cfg=None, maxlen=30, walks=0, walklen=60, limit=None, tour=True, tw=4):
    """model-check a configuration of Broker, then drive the real broker through every transition"""
    r, trs = tlc.transitions(mod, cfg=cfg, workers=tw)
    ev.model(r, len(trs))
    g = Graph(trs)
    paths, cov = g.tours(SEED, maxlen, limit) if tour else ([], 0)
    if walks:
        paths = paths + g.walks(SEED + 1, walks, walklen)
    log('%s: %d paths, %d of %d transitions' % (cfg or mod, len(paths), cov, len(g.edges)))
    opts = opts_for(opts)
    jobs = [Script(i, SEED, opts).job(g, p) for i, p in enumerate(paths)]
    h = dict(hdr)
    h.setdefault('listeners', opts.get('listeners', 1))
    h.setdefault('passwd', passwd())
    summ = check_job(prop, h, jobs, describe=lambda i: compact(g, paths[i]), what=(cfg or mod))
    ev.traces += summ['done']
    ev.count('transitions_replayed', cov)
    ev.count('packets_sent', summ['sent'])
    ev.count('packets_compared', summ['recv'])
    ev.sample({'model': cfg or mod, 'behaviour': compact(g, paths[len(paths) // 2])})
    return g, paths


def readable(steps):
    r = []
    for st, e, o in steps:
        x = e['op'] + ' c%s' % e.get('c')
        for a in ('id', 'cred', 'fs', 'topic', 'l'):
            if a in e:
                x += ' %s=%s' % (a, json.dumps(e[a]))
        if o:
            x += ' -> ' + ', '.join('c%s:%s' % (c, y['t'] + (str(y['code']) if 'code' in y else '')) for c, y in o)
        r.append(x)
    return r


def broker_simulate(ev, prop, mod, opts, hdr, num, depth, cfg=None):
    """behaviours from TLC's simulator (every one checked by TLC against the properties), replayed"""
    r, beh = tlc.simulate(mod, num, depth, SEED, cfg=cfg)
    ev.states += r.states
    ev.transitions += r.generated
    opts = opts_for(opts)
    jobs = []
    for i, b in enumerate(beh):
        jobs.append(Script(100000 + i, SEED, opts).job_steps([x[:3] for x in b], b[-1][3]))
    h = dict(hdr)
    h.setdefault('listeners', opts.get('listeners', 1))
    h.setdefault('passwd', passwd())
    summ = check_job(prop, h, jobs, describe=lambda i: readable([x[:3] for x in beh[i - 100000]]), what=mod)
    ev.traces += summ['done']
    ev.count('simulated_steps_replayed', sum(map(len, beh)))
    ev.count('packets_sent', summ['sent'])
    ev.count('packets_compared', summ['recv'])
    ev.sample({'model': mod, 'behaviour': readable([x[:3] for x in beh[0]])[:40]})


class Alongside:
    """something slow that does not use the processor, while the rest of a check runs"""

    def __init__(self, f, *a):
        import threading
        bins()
        passwd()
        scratch()
        self.err = None

        def run():
            try:
                f(*a)
            except BaseException as e:
                self.err = e
        self.t = threading.Thread(target=run, daemon=True)
        self.t.start()

    def join(self):
        self.t.join()
        if self.err:
            raise self.err


PAUSES = [2, 6, 11, 16, 21, 31, 36, 46, 61, 66]


def idle(ev, prop, ignore, cut=0.0):
    """behaviours in which everybody is silent for long (the broker must not mind)"""
    r, beh = tlc.simulate('MC_idle', big(60, 150), 40, SEED)
    ev.states += r.states
    ev.transitions += r.generated
    beh = [b for b in beh if any(x[1]['op'] == 'wait' for x in b)]
    pauses = PAUSES + big([], [95, 125, 185, 245, 305, 305, 400, 610])
    jobs = []
    for i, b in enumerate(beh):
        t = pauses[i % len(pauses)]
        o = opts_for({'idle': [t] * (2 if t < 20 else 1), 'idlecut': cut, 'keepalive': [0]})
        jobs.append(Script(700000 + i, SEED, o).job_steps([x[:3] for x in b], b[-1][3]))
    # (the longest first)
    jobs.sort(key=lambda j: -pauses[(j['id'] - 700000) % len(pauses)])
    summ = check_job(prop, {'ignore': ignore, 'passwd': passwd(), 'workers': len(jobs), 'budget_s': 780}, jobs,
                     describe=lambda i: readable([x[:3] for x in beh[i - 700000]]), what='MC_idle')
    ev.traces += summ['done']
    ev.add('silences', len(jobs))
    ev.add('longest_silence_s', max(pauses))


def big(q, t):
    return t if THOROUGH else q


# which parts of packets each property is about; a deviation elsewhere is another property's
IGN = {'C02': ['flags', 'payload', 'pid', 'codes', 'sp'], 'C06': ['flags', 'payload'],
       'C07': ['flags', 'payload', 'pid', 'codes', 'sp'], 'C09': ['flags', 'payload', 'pid', 'codes'],
       'C10': ['flags', 'payload', 'pid', 'codes', 'sp'], 'C12': ['flags', 'payload', 'pid', 'codes', 'sp'],
       'C13': ['flags', 'sp'], 'C16': ['flags', 'payload', 'pid', 'codes', 'sp']}


@prop
def C02(ev):
    h = {'ignore': IGN['C02']}
    import checks_soak
    silent = Alongside(idle, ev, 'C02', IGN['C02'])
    crowd = Alongside(checks_soak.thousand, ev, 'C02', IGN['C02'])
    broker_replay(ev, 'C02', 'MC_delivery', {}, h)
    broker_replay(ev, 'C02', 'MC_filters', {}, h)
    broker_simulate(ev, 'C02', 'MC_bigcalm', {}, h, big(250, 4000), 150)
    checks_soak.repeated(ev, 'C02', 'MC_delivery', ('pub', 'sub', 'unsub'), IGN['C02'])
    checks_soak.wide(ev, 'C02', IGN['C02'])
    checks_soak.many_filters(ev, 'C02', IGN['C02'], levels=6, num=big(4, 24))
    silent.join()
    crowd.join()


@prop
def C06(ev):
    h = {'ignore': IGN['C06']}
    silent = Alongside(idle, ev, 'C06', IGN['C06'])
    broker_replay(ev, 'C06', 'MC_requests', {'pipe': 0.8}, h)
    broker_replay(ev, 'C06', 'MC_lists', {}, h, maxlen=12, tw=1)
    broker_replay(ev, 'C06', 'MC_listslong', {}, h, maxlen=8, tw=1)
    broker_simulate(ev, 'C06', 'MC_big', {'pipe': 0.8}, h, big(250, 4000), 120)
    # requests whose replies find the queue of the connection full
    import checks_wire
    checks_wire.stalls(ev, 'C06', 'catchup')
    import checks_soak
    checks_soak.repeated(ev, 'C06', 'MC_requests', ('ping', 'ack', 'sub', 'unsub'), IGN['C06'])
    checks_soak.every_identifier(ev, 'C06', IGN['C06'])
    silent.join()


@prop
def C07(ev):
    h = {'ignore': IGN['C07']}
    o = {}
    ending(ev, 'C07', big(70, 1200), shared=0.5, ids=1, turned=0.4)
    broker_replay(ev, 'C07', 'MC_admission', o, h)
    broker_simulate(ev, 'C07', 'MC_big', o, h, big(250, 4000), 120)
    # ends with a queue that is full
    import checks_wire
    checks_wire.stalls(ev, 'C07', 'leave')


@prop
def C09(ev):
    h = {'ignore': IGN['C09']}
    ending(ev, 'C09', big(70, 1200), shared=0.3, ids=1)
    broker_replay(ev, 'C09', 'MC_session', {}, h)
    broker_replay(ev, 'C09', 'MC_ends', {}, h, walks=big(300, 5000), walklen=80)
    broker_simulate(ev, 'C09', 'MC_big', {}, h, big(150, 3000), 120)
    import checks_wire
    checks_wire.stalls(ev, 'C09', 'leave')
    import checks_soak
    checks_soak.many_clients(ev, 'C09', IGN['C09'], True)
    checks_soak.many_filters(ev, 'C09', IGN['C09'], num=big(3, 12), depth=big(300, 500), ends=10, levels=6)


@prop
def C10(ev):
    h = {'ignore': IGN['C10']}
    silent = Alongside(idle, ev, 'C10', IGN['C10'])
    ending(ev, 'C10', big(70, 1200), shared=0.8, ids=2)
    broker_replay(ev, 'C10', 'MC_takeover', {}, h)
    import checks_wire
    checks_wire.stalls(ev, 'C10', 'takeover')
    import checks_soak
    checks_soak.many_clients(ev, 'C10', IGN['C10'])
    checks_soak.wide(ev, 'C10', IGN['C10'])
    silent.join()


# ------------------------------------------------------------------------------------ C01
@prop
def C01(ev):
    r, trs = tlc.transitions('MC_topics', cfg='MC_topics_deep' if THOROUGH else 'MC_topics')
    ev.model(r)
    rows = [(tuple(v['t']), {tuple(f) for f in v['m']}, {tuple(f) for f in v['p']}) for v in trs]
    fl = ['a', 'b', '', '$s', '+', '#', 'a+'] + ([] if THOROUGH else ['#b'])
    import itertools
    filters = [f for n in range(1, 5 if THOROUGH else 4) for f in itertools.product(fl, repeat=n) if f != ('',)]
    ev.add('filters', len(filters))
    ev.add('names', len(rows))
    ev.add('pairs', len(filters) * len(rows))
    rnd = random.Random(SEED)
    jobs, desc = [], {}
    bym = {}
    for t, m, p in rows:
        for f in m | p:
            bym.setdefault(f, []).append(t)
    for rnd_no in range(big(4, 6)):
        per = [1, 1, 2, 4, 8, 1][rnd_no]        # filters held by one client
        size = 60 * per if not THOROUGH else 150 * per
        fs = filters[:]
        rnd.shuffle(fs)
        for k in range(0, len(fs), size):
            part = fs[k:k + size]
            jobs.append(topic_job(len(jobs), part, per, rows, rnd_no))
    # two levels that look the same
    from conc import MARKS
    few = [f for f in filters if len(f) < 4 and set(f) <= {'a', 'b', '+', ''} and f.count('+') < 3 and f.count('') < 2]
    for m in MARKS[1:]:
        for w in ('%s' + m, m + '%s', 'x' + m + '%s'):
            x = rnd.choice(['a', 'Q', 'ab', 'ü'])
            two = [w % x, ('x' + x) if w[0] == 'x' else x]
            rnd.shuffle(two)
            jobs.append(topic_job(len(jobs), rnd.sample(few, big(24, len(few))), 1, [v for v in rows if len(v[0]) < 4],
                                  0, levels=dict(zip('ab', two))))
    ev.add('pairs_of_levels_alike', 3 * len(MARKS) - 3)
    h = {'ignore': ['flags', 'payload', 'pid', 'codes', 'sp'], 'passwd': passwd()}
    summ = check_job('C01', h, jobs, what='MC_topics')
    ev.traces += summ['done']
    ev.add('packets_compared', summ['recv'])
    ev.sample({'name': rows[len(rows) // 2][0], 'matching_filters': sorted(rows[len(rows) // 2][1])[:20],
               'parent_only': sorted(rows[len(rows) // 2][2])})
    # many levels
    r, trs = tlc.transitions('MC_topics_long', cfg='MC_topics_long_deep' if THOROUGH else None, workers=1, timeout=800)
    ev.model(r)
    base = {}
    for v in trs:
        base.setdefault((v['k'], v['n']), []).append(v)
    jobs = []
    for (k, n), vs in sorted(base.items()):
        part = [tuple(f) for v in vs for f in v['fs']]
        rnd.shuffle(part)
        long = [(tuple(v['t']), {tuple(f) for f in v['m']}, {tuple(f) for f in v['p']}) for v in vs]
        ev.count('pairs_of_many_levels', len(part) * len(long))
        for x in range(big(1, 2)):
            jobs.append(topic_job(100000 + len(jobs), part, rnd.choice([1, 1, 3]), long, x + n % 2, style='short' if n < 100 else 'plain'))
    s2 = check_job('C01', h, jobs, what='MC_topics_long')
    ev.traces += s2['done']
    ev.add('parent_only_pairs_delivered', summ['opt_seen'] + s2['opt_seen'])
    ev.add('parent_only_pairs_not_delivered', summ['opt_missing'] + s2['opt_missing'])
    if summ['opt_missing'] + s2['opt_missing']:
        known_finding('C01', 'hash-excludes-parent')


def topic_job(jid, part, per, rows, rnd_no, style=None, levels=None):
    sc = Script(jid, SEED, {'creds': CREDS})
    r, nm = sc.r, sc.nm
    nm.style = style or nm.style
    nm.levels.update(levels or {})
    clients = [part[i:i + per] for i in range(0, len(part), per)]
    P = 1
    sc.op('o', P, 0)
    sc.send(P, wire.connect(nm.client('p')))
    sc.op('q', P, wire.connack(0).hex())
    sc.op('d', P)
    decoys = rnd_no % 2 == 1
    for i, fs in enumerate(clients):
        c = i + 2
        sc.op('o', c, 0)
        sc.send(c, wire.connect(nm.client('s%d' % i)))
        sc.op('q', c, wire.connack(0).hex())
        # filters that are subscribed and unsubscribed again before it matters
        extra = [r.choice(part) for _ in range(2)] if decoys else []
        extra = sorted({f for f in extra if f not in fs})
        todo = [('s', f) for f in extra] + [('s', f) for f in fs]
        r.shuffle(todo)
        for f in extra:
            at = r.randint(todo.index(('s', f)) + 1, len(todo))
            todo.insert(at, ('u', f))
        for what, f in todo:
            pid = sc.packet_id()
            if what == 's':
                sc.send(c, wire.subscribe(pid, [nm.topic(f)]))
                sc.op('q', c, wire.suback(pid, 1).hex())
            else:
                sc.send(c, wire.unsubscribe(pid, [nm.topic(f)]))
                sc.op('q', c, wire.unsuback(pid).hex())
            if r.random() < 0.5:
                sc.op('d', c)
        sc.op('d', c)
    # filters that match none of the names: hundreds of other levels beside the ones that count
    spare = len(clients) + 2
    if r.random() < 0.4:
        sc.op('o', spare, 0)
        sc.send(spare, wire.connect(nm.client('z')))
        sc.op('q', spare, wire.connack(0).hex())
        heads = [f[:k] for f in part for k in range(len(f)) if len(f) < 30 and '#' not in f[:k]]
        some = r.sample(heads, min(len(heads), r.choice([1, 3, 20])))
        other = [nm.topic(x) + '/' if x else '' for x in some]
        n = r.choice([20, 70, 300, 1200])
        names = ['%s%s%d' % (r.choice(other), r.choice(['n~q', 'other~q', 'a~q', '$n~q']), i) for i in range(n)]
        for k in range(0, len(names), 40):
            pid = sc.packet_id()
            sc.send(spare, wire.subscribe(pid, names[k:k + 40]))
            sc.op('q', spare, wire.suback(pid, len(names[k:k + 40])).hex())
        sc.op('d', spare)
        if r.random() < 0.3:
            gone = r.sample(names, len(names) // 2)
            for k in range(0, len(gone), 30):
                pid = sc.packet_id()
                sc.send(spare, wire.unsubscribe(pid, gone[k:k + 30]))
                sc.op('q', spare, wire.unsuback(pid).hex())
            sc.op('d', spare)
    else:
        spare = None
    where = {f: i + 2 for i, fs in enumerate(clients) for f in fs}
    order = rows[:]
    r.shuffle(order)
    for k, (t, m, p) in enumerate(order):
        topic = nm.topic(t)
        sc.send(P, wire.publish(topic, b'%d' % k))
        e = wire.publish(topic, b'%d' % k).hex()
        for kind, S in (('q', m), ('m', p)):
            for f in S:
                if f in where:
                    sc.op(kind, where[f], e)
        if k % 10 == 9:
            sc.op('p', P)
            for c in range(2, len(clients) + 2):
                sc.op('p', c)
    sc.op('p', P)
    for c in range(2, len(clients) + 2):
        sc.op('p', c)
    if spare:
        sc.op('p', spare)
        sc.op('x', spare, 'fin')
    for c in range(1, len(clients) + 2):
        sc.op('x', c, 'fin')
    sc.op('A')
    return {'id': jid, 'ops': sc.ops}


# ------------------------------------------------------------------------------------ C03, C04
PUBS = {'clients': (3, 6), 'ops': (20, 60), 'weights': {'pub': 10, 'sub': 1.5, 'unsub': 0.7, 'ping': 0.5},
        'bursts': [1, 1, 2, 5, 10, 20], 'wait': 0.3, 'handoff': 0.3}
SUBS = {'clients': (3, 6), 'ops': (20, 50), 'weights': {'pub': 4, 'sub': 3, 'unsub': 2.5, 'ping': 0.3},
        'bursts': [1, 1, 1, 2, 3, 6], 'wait': 0.7, 'handoff': 0.6}


# connections that end in every way while everything else goes on
ENDING = {'clients': (2, 5), 'ops': (12, 40), 'bursts': [1, 1, 1, 2, 3, 6], 'wait': 0.5, 'handoff': 0.4, 'creds': ['anon', 'anon', 'good'],
          'sizes': [0, 0, 0, 3, 30, 300],
          'weights': {'pub': 6, 'sub': 2, 'unsub': 0.7, 'ping': 0.7, 'disc': 0.4, 'half': 0.3, 'fin': 0.3, 'rst': 0.3, 'bad': 0.2, 'again': 0.2}}


def ending(ev, prop, runs, **kw):
    import stress
    stress.validate(prop, ev, {'passwd': passwd()}, dict(ENDING, **kw), runs, 'ends')


@prop
def C03(ev):
    import stress
    stress.validate('C03', ev, {}, PUBS, big(80, 1200), 'ordering')
    # a publisher in front of many subscribers
    import checks_soak
    ign = ['flags', 'pid', 'codes', 'sp']
    checks_soak.wide(ev, 'C03', ign, n=60, again=70, num=big(6, 60), depth=2000)
    checks_soak.wide(ev, 'C03', ign, n=big(150, 300), again=60, num=big(1, 4), depth=big(3000, 6000))
    # what piles up for a subscriber that does not read comes in order when it does
    import checks_wire
    checks_wire.stalls(ev, 'C03', 'catchup')


@prop
def C04(ev):
    import stress
    silent = Alongside(idle, ev, 'C04', ['flags', 'payload', 'pid', 'codes', 'sp'])
    stress.validate('C04', ev, {}, SUBS, big(80, 1200), 'acks')
    silent.join()


# ------------------------------------------------------------------------------------ C05
def topic_bytes(r, cls, n):
    """a topic name of exactly n bytes (about: the class needs room)"""
    alpha = {'ascii': 'abcXYZ019 _-', 'two': 'äößñЖ', 'three': '日本語€', 'four': '😀🎉𝄞', 'bom': '\ufeff日a',
             'odd': '\x01\x1f\x7f\t\n "\'\\%$;&\u2028\ufffd', 'levels': 'a/b//'}[cls]
    out = b'\xef\xbb\xbf' if cls == 'bom' and n >= 3 else b''
    if not out and cls == 'levels':
        out = b'/' if n == 1 else b'l/'
    while len(out) < n:
        if len(out) > 400:
            # (how many levels a name may have is the matter of C12)
            more = out[3:] if cls != 'levels' else b'l' * 400 + b'/'
            out = (out + more * (n // 300))[:n]
            break
        x = r.choice(alpha).encode()
        if len(out) + len(x) > n:
            x = b'x'
        out += x
    while True:        # not in the middle of a character
        try:
            out.decode()
            break
        except UnicodeDecodeError as e:
            out = out[:e.start] + b'z' * (len(out) - e.start)
    if out[:1] == b'$':
        out = b'd' + out[1:]
    return out


def message_job(jid, kinds):
    """kinds: list of (attributes, bytes in, bytes out)"""
    sc = Script(jid, SEED, {'creds': CREDS})
    r = sc.r
    names = {}
    for m, _, _ in kinds:
        k = (m['tcls'], m['tlen'])
        if k not in names:
            names[k] = topic_bytes(r, *k)
    for c in (1, 2, 3):
        sc.op('o', c, 0)
        sc.send(c, wire.connect(sc.nm.client('m%d' % c)))
        sc.op('q', c, wire.connack(0).hex())
        sc.op('d', c)
    sc.send(2, wire.subscribe(7, ['#']))
    sc.op('q', 2, wire.suback(7, 1).hex())
    sc.op('d', 2)
    for t in sorted(set(names.values())):
        sc.send(3, wire.subscribe(9, [t], [r.randint(0, 2)]))
        sc.op('q', 3, wire.suback(9, 1).hex())
        sc.op('d', 3)
    pending = 0
    left = r.randint(1, 12)
    for m, hin, hout in kinds:
        t = names[(m['tcls'], m['tlen'])]
        pid = r.choice([1, 255, 256, 65535, r.randint(1, 65535)])
        seed = r.getrandbits(32)
        head = bytes(hin) + wire.mstr(t) + (pid.to_bytes(2, 'big') if m['qos'] else b'')
        sc.op('g', 1, head.hex(), m['size'], seed)
        e = (bytes(hout) + wire.mstr(t)).hex()
        sc.op('G', 2, e, m['size'], seed)
        sc.op('G', 3, e, m['size'], seed)
        pending += m['size'] + m['tlen']
        left -= 1
        if left <= 0 or pending > 100000:
            sc.op('d', 2)
            sc.op('d', 3)
            sc.op('p', 1)
            left, pending = r.randint(1, 12), 0
    for c in (1, 2, 3, 2, 3):
        sc.op('p', c)
    for c in (1, 2, 3):
        sc.op('x', c, 'fin')
    sc.op('A')
    return {'id': jid, 'ops': sc.ops}


@prop
def C05(ev):
    h = {'ignore': [], 'passwd': passwd()}
    for cfg, per, sample in [('MC_messages', 200, None), ('MC_messages_big', 60, None if THOROUGH else 1200),
                             ('MC_messages_huge', 6, None if THOROUGH else 16)] + ([('MC_messages_max', 1, None)] if THOROUGH else []):
        r, trs = tlc.transitions('MC_messages', cfg=cfg)
        ev.model(r, len(trs))
        kinds = [(v['f'], v['t'], v['e'], v['o']['in'], v['o']['out']) for v in trs]
        rnd = random.Random(SEED)
        if cfg == 'MC_messages':
            # a walk that takes every transition
            g = Graph([{'f': f, 't': t, 'e': [m, a, b], 'o': None} for f, t, m, a, b in kinds], init={'qos': 0})
            paths, cov = g.tours(SEED, per)
            seqs = [[g.edges[k][2] for k in p] for p in paths]
        else:
            if sample:
                kinds = rnd.sample(kinds, min(sample, len(kinds)))
            else:
                rnd.shuffle(kinds)
            seqs = [[k[2:] for k in kinds[i:i + per]] for i in range(0, len(kinds), per)]
        jobs = [message_job(i, s) for i, s in enumerate(seqs)]
        hh = dict(h)
        if cfg == 'MC_messages_max':
            hh['workers'] = 1
            hh['timeout_ms'] = 60000
        summ = check_job('C05', hh, jobs, what=cfg)
        ev.traces += summ['done']
        ev.count('messages', sum(map(len, seqs)))
        ev.count('packets_compared', summ['recv'])
        ev.sample({'model': cfg, 'messages': seqs[len(seqs) // 2][:4]})
    import checks_soak
    checks_soak.repeated(ev, 'C05', 'MC_delivery', ('pub',), [])


# ------------------------------------------------------------------------------------ C08, C15
# concrete users for u1, u2, ... and a stranger: names that are easily confused
USERS = [
    {'u1': 'alice', 'u2': 'Alice', 'u3': 'alic', 'u4': 'alice2', 'stranger': 'ALICE'},
    {'u1': 'a.c', 'u2': 'abc', 'u3': 'a+c', 'u4': 'a', 'stranger': 'c'},
    {'u1': '', 'u2': ' ', 'u3': 'u ', 'u4': 'u', 'stranger': ' u'},
    {'u1': 'é', 'u2': 'e\u0301', 'u3': 'ß', 'u4': 'ss', 'stranger': 'É'},
    {'u1': 'x' * 300, 'u2': 'x' * 299, 'u3': 'x' * 299 + 'y', 'u4': 'X' * 300, 'stranger': 'x' * 301},
    {'u1': '$1', 'u2': '$argon2id$v=19$', 'u3': '${0}', 'u4': '$0', 'stranger': '$$1'},
    {'u1': '^a', 'u2': 'a$', 'u3': '[a-z]*', 'u4': '(?i)a', 'stranger': 'a'},
    {'u1': 'b\\', 'u2': 'b', 'u3': '\\b', 'u4': 'b\\n', 'stranger': 'b\\\\'},
    {'u1': 'na me', 'u2': 'name', 'u3': 'na\tme', 'u4': 'na', 'stranger': 'me'},
    {'u1': '日本', 'u2': '日', 'u3': '本', 'u4': '日本語', 'stranger': '日本 '},
    {'u1': 'a|b', 'u2': 'a', 'u3': 'b', 'u4': 'b|a', 'stranger': 'ab'},
    {'u1': '#root', 'u2': 'root', 'u3': '"root"', 'u4': 'root,', 'stranger': "'root'"},
    {'u1': 'i', 'u2': 'I', 'u3': 'ı', 'u4': 'İ', 'stranger': 'K'},
    {'u1': 'k', 'u2': '\u212a', 'u3': 'K', 'u4': 'kk', 'stranger': 'kkk'},
]
PASSWORDS = [
    {'p': 'secret', 'q': 'Secret', 'other': 'secre'},
    {'p': '', 'q': ' ', 'other': 'x'},
    {'p': 'pä$$wörd', 'q': 'pä$wörd', 'other': 'pä$1wörd'},
    {'p': 'l' * 3000, 'q': 'l' * 2999, 'other': 'l' * 3001},
    {'p': 'with:colon', 'q': 'with', 'other': 'colon'},
    {'p': '日本語', 'q': '日本', 'other': '語'},
    {'p': '$0', 'q': '${1}', 'other': '$$0'},
    {'p': 'a b', 'q': 'a', 'other': 'b'},
    {'p': 'line\n', 'q': 'line', 'other': 'line\r\n'},
    {'p': 'k' * 72 + 'a', 'q': 'k' * 72 + 'b', 'other': 'k' * 72},
    {'p': 'w' * 255 + 'a', 'q': 'w' * 255, 'other': 'w' * 256},
    {'p': 'é', 'q': 'e\u0301', 'other': 'ê'},
    {'p': '\ufb01n', 'q': 'fin', 'other': 'ﬁ'},
]


def near(r, x, avoid, name=False, infile=False):
    """a string that is easily taken for x, and is none of avoid"""
    import unicodedata
    for _ in range(50):
        i = r.randrange(len(x) + 1)
        c = x[i:i + 1]
        y = r.choice([
            lambda: x + r.choice(['\n', '\r\n', '\r', ' ', '\t', '  ', '\u00a0', '\u200b', '\ufeff', ':', '$', '=', '\\', '%', '"']),
            lambda: r.choice([' ', '\t', '\n', '\ufeff', '\u200b', ':', '#', '"', '-']) + x,
            lambda: x.strip(), lambda: x.rstrip(), lambda: x.lstrip(),
            lambda: x[:-1], lambda: x[1:], lambda: x[:i] + x[i + 1:],
            lambda: x[:i] + r.choice('aZ0 é:') + x[i:], lambda: x[:i] + c + c + x[i + 1:],
            lambda: x[:i] + chr((ord(c) + 1) % 128 if c else 65) + x[i + 1:],
            lambda: x[:i] + c.swapcase() + x[i + 1:],
            lambda: x.upper(), lambda: x.lower(), lambda: x.swapcase(), lambda: x.casefold(), lambda: x.title(),
            lambda: unicodedata.normalize('NFC', x), lambda: unicodedata.normalize('NFD', x),
            lambda: unicodedata.normalize('NFKC', x), lambda: unicodedata.normalize('NFKD', x),
            lambda: x[::-1], lambda: x + x, lambda: '', lambda: x + r.choice('aZ0'), lambda: x[:r.choice([8, 16, 31, 32, 63, 64, 71, 72, 128, 255])],
            lambda: x.replace(' ', ''), lambda: x.replace(' ', '+'), lambda: "'%s'" % x, lambda: '"%s"' % x, lambda: x + '\n' + x,
        ])()
        if y in avoid or '\0' in y or len(y.encode()) > 60000 or infile and any(z in y for z in ':\r\n'):
            continue
        return y
    return x + 'zz~'


EDGES = [1, 4, 7, 8, 9, 12, 14, 15, 16, 20, 23, 24, 30, 31, 32, 36, 40, 48, 50, 55, 56, 60, 63, 64, 65, 71, 72, 73, 80, 96, 99, 100, 127, 128, 129, 160, 192,
         200, 254, 255, 256, 257, 300, 384, 500, 511, 512, 513, 768, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 8192, 16384, 32768]


AGAIN = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 30, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 120, 127, 128, 129, 200, 250, 255,
         256, 257, 300]


def at_edge(r, n, k):
    """k strings of n bytes and a little more or less, the same up to there"""
    fill = r.choice(['x', 'ab', 'abcdefghijklmnopqrstuvwxyz0123456789', 'Aé', 'z '])
    x = ''
    while len(x.encode()) < n:
        c = fill[len(x) % len(fill)]
        x += c if len((x + c).encode()) <= n else 'q'
    out = [x]
    more = [x + a + b for a in 'yz\u00e9' for b in ['', 'w', 'w' * n]] + [x[:-1], x[:-1] + '~', x[:-1] + '~y']
    while len(out) < k:
        y = r.choice(more)
        if y not in out and len(y.encode()) < 60000:
            out.append(y)
    return out


def confusable(r):
    """users and passwords like those of USERS and PASSWORDS"""
    base = r.choice(['user', 'Anna', 'x y', 'ünï', 'a-b_c', '0', 'root@host', 'ǅ', 'ſs', 'z' * 130, 'a/b', '%41', '&amp;', '..'])
    us = [base]
    while len(us) < 5:
        us.append(near(r, r.choice(us), us + [''], infile=True))
    r.shuffle(us)
    base = r.choice(['pass', 'P4ss wörd', '', ' ', 'x' * 64, 'x' * 130, '日本', 'a:b', '$argon2', 'tab\t', 'nl\n', '"q"', '{}'])
    ps = [base]
    while len(ps) < 3:
        ps.append(near(r, r.choice(ps), ps))
    if r.random() < 0.5:
        ps = at_edge(r, r.choice(EDGES), 3)
    if r.random() < 0.3:
        us = at_edge(r, r.choice(EDGES), 5)
        r.shuffle(us)
    r.shuffle(ps)
    return dict(zip(('u1', 'u2', 'u3', 'u4', 'stranger'), us)), dict(zip(('p', 'q', 'other'), ps))


# (hashes.txt: the same password, hashed by the other kinds and versions of Argon2, with other costs, lengths and salts)
FILLER = ('filler', 'of another kind')
OTHERS = [x + '\n' for x in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hashes.txt')).read().split()]


def filled(r, ents, lines, us, n):
    """n entries more, at any place of the file: (lines, some of their user names)"""
    h = ents.get(*FILLER)[len(FILLER[0]):]
    names, taken = [], set(us.values())
    for i in range(n):
        u = '%s%d' % (r.choice(['f', 'filler', 'user', 'x' * 40, 'ü']), i)
        if r.random() < 0.2:
            x = r.choice(sorted(taken))
            u = r.choice([x + u, u + x])
        if u not in taken and len(u.encode()) < 60000:
            names.append(u)
    names = sorted(set(names))
    r.shuffle(names)
    at = sorted(r.sample(range(len(names) + len(lines)), len(lines)))
    rest, own, out = iter(names), iter(lines), []
    for i in range(len(names) + len(lines)):
        out.append(next(own) if i in at else next(rest) + (':' + r.choice(OTHERS) if r.random() < 0.7 else h))
    return out, [names[0], names[-1]] + r.sample(names, min(len(names), 6))


def tool(args):
    import subprocess
    d, _ = bins()
    return subprocess.run([os.path.join(d, 'ratelmq-passwd')] + args, capture_output=True, text=True, timeout=60,
                          cwd=scratch(), env={k: v for k, v in os.environ.items() if k != 'RUST_LOG'})


class Entries:
    """lines of password files, made by the tool, one per (user, password)"""

    def __init__(self):
        self.c = {}
        import threading
        self.l = threading.Lock()

    def get(self, u, p):
        if (u, p) not in self.c:
            with self.l:
                f = os.path.join(scratch(), 'entry%d' % len(self.c))
                self.c[(u, p)] = None
            open(f, 'w').close()
            r = tool(['--file=' + f, '--user=' + u, '--password=' + p])
            if r.returncode:
                raise Violation(replay_file('C15', 'entry', {'user': u, 'password': p, 'stderr': r.stderr}),
                                'the password tool does not make an entry for %r: %s' % (u, r.stderr))
            self.c[(u, p)] = open(f, newline='').read()
            os.unlink(f)
        return self.c[(u, p)]

    def prepare(self, pairs):
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: self.get(*x), sorted(set(pairs))))


def attempt(sc, c, u, p, ok, later=None):
    """one CONNECT on a connection of its own"""
    r = sc.r
    sc.op('o', c, 0)
    cid = r.choice(['', sc.nm.client('a%d' % c), (u or '') + sc.nm.client('b%d' % c), 'c%d' % c])
    sc.send(c, wire.connect(cid, u, p, clean=cid == '' or r.random() < 0.5, keepalive=r.choice([0, 1, 60, 65535]), will=sc.will()))
    sc.op('q', c, wire.connack(0 if ok else 5).hex())
    if later is not None:
        later.append((c, ok))
    else:
        answered(sc, c, ok)


def answered(sc, c, ok):
    if ok:
        sc.op('p', c)
    else:
        sc.op('z', c)
        sc.op('d', c)


@prop
def C08(ev):
    ents = Entries()
    r, trs = tlc.transitions('MC_auth')
    ev.model(r, len(trs))
    r2, trs2 = tlc.transitions('MC_auth', cfg='MC_auth_pairs')
    ev.model(r2, len(trs2))
    NU, MI = '-no user name-', '-no password-'
    rnd = random.Random(SEED)
    plans = []          # (file, attempts, users, passwords)
    byfile = {}
    for v in trs:
        byfile.setdefault(json.dumps(v['f']['file']), []).append((v['e'], v['o'][0]))
    for rep in range(big(3, 14)):
        for k, (f, at) in enumerate(sorted(byfile.items())):
            at = at + rnd.sample(at, 6)
            rnd.shuffle(at)
            us, ps = USERS[(k + rep * 5) % len(USERS)], PASSWORDS[(k // 3 + rep) % len(PASSWORDS)]
            if k % 3 == 0:
                us, ps = confusable(rnd)
            plans.append((json.loads(f), at, us, ps))
    # every length that may be a limit, of passwords and of names
    some = [(json.loads(f), at) for f, at in sorted(byfile.items()) if len(json.loads(f)) > 0]
    for n in EDGES:
        for k in range(big(2, 8)):
            f, at = rnd.choice(some)
            us, ps = confusable(rnd)
            if k % 2:
                us = dict(zip(sorted(us), at_edge(rnd, n, 5)))
            x = at_edge(rnd, n, 3)
            ps = dict(zip(rnd.sample(['p', 'q', 'other'], 3), x))
            plans.append((f, rnd.sample(at, len(at)), us, ps))
    # the same attempt many times over (it leads back to its state), and then every one
    for n in AGAIN:
        for k in range(big(2, 8)):
            f, at = rnd.choice(some)
            again = rnd.choice([x for x in at if x[1] == (k % 2 == 1) and (x[0]['u'] in [l['u'] for l in f] or rnd.random() < 0.2)])
            us, ps = USERS[rnd.randrange(len(USERS))], PASSWORDS[rnd.randrange(len(PASSWORDS))]
            plans.append((f, [again] * n + rnd.sample(at, len(at)), us, ps))
    g = Graph(trs2, init=[v['f'] for v in trs2 if v['f']['prev']['u'] == 'none yet'][0])
    for rep in range(big(2, len(USERS))):
        paths, cov = g.tours(SEED + rep, 40)
        for p in paths:
            plans.append((g.states[g.init]['file'], [(g.edges[k][2], g.edges[k][3][0]) for k in p],
                          USERS[(SEED + rep * 3) % len(USERS)], PASSWORDS[(rep * 2 + 1) % len(PASSWORDS)]))
    ents.prepare([(us[l['u']], ps[l['p']]) for f, _, us, ps in plans for l in f] + [FILLER])
    jobs = []
    for i, (f, at, us, ps) in enumerate(plans):
        sc = Script(i, SEED, {'creds': CREDS})
        c = 0
        live = []
        eol = '\r\n' if i % 7 == 3 else '\n'
        lines, more = [ents.get(us[l['u']], ps[l['p']]) for l in f], []
        if i % 6 == 2 or i % 6 == 5:
            lines, more = filled(sc.r, ents, lines, us, sc.r.choice([2, 5, 20, 64, 128, 300, 1000, 3000] if i % 6 == 2 else [2, 3, 8]))
        hold = sc.r.choice([6, 6, 6, 40, 400]) if len(at) < 200 else sc.r.choice([6, 400])
        # attempts at the same time: the answers are read only when some have been sent
        later, many = (None, 0) if i % 3 else ([], sc.r.choice([2, 4, 10, 30, 70]))
        for e, ok in at:
            c += 1
            u = None if e['u'] == NU else us[e['u']]
            p = None if e['p'] == MI else ps[e['p']]
            if e['u'] == 'stranger' and sc.r.random() < 0.8:
                u = near(sc.r, us[sc.r.choice([l['u'] for l in f] or ['u1'])], [us[l['u']] for l in f])
            if e['p'] == 'other' and sc.r.random() < 0.6:
                own = [l['p'] for l in f if l['u'] == e['u']] or ['p']
                p = near(sc.r, ps[own[0]], [ps['p'], ps['q']])
            attempt(sc, c, u, p, ok, later)
            live.append((c, ok))
            if later and len(later) >= many:
                for x in later:
                    answered(sc, *x)
                later.clear()
            if len(live) > hold and not later:
                k, _ = live.pop(sc.r.randrange(len(live)))
                sc.op('x', k, sc.r.choice(['fin', 'rst']))
        for x in later or []:
            answered(sc, *x)
        for u in more:
            for p, ok in [(FILLER[1], True), (near(sc.r, FILLER[1], [FILLER[1]]), False)]:
                c += 1
                attempt(sc, c, u, p, ok)
                sc.op('x', c, 'fin')
        for k, ok in live:
            if ok:
                sc.op('p', k)
            sc.op('x', k, 'fin')
        sc.op('A')
        text = ''.join(lines).replace('\n', eol)
        if i % 5 == 1 and text:
            text = text[:-len(eol)]
        jobs.append({'id': i, 'ops': sc.ops, 'hdr': {'passwd': text}})
    summ = check_job('C08', {'ignore': ['sp']}, jobs, describe=lambda i: {'file': plans[i][0], 'users': plans[i][2],
                     'passwords': plans[i][3], 'attempts': plans[i][1]}, what='MC_auth')
    ev.traces += summ['done']
    ev.add('password_files', len({json.dumps([f, sorted(us.items())]) for f, _, us, _ in plans}))
    ev.add('attempts', sum(len(a) for _, a, _, _ in plans))
    ev.add('largest_password_file', max(len(j['hdr']['passwd']) for j in jobs))
    ev.sample({'file': plans[5][0], 'users': plans[5][2], 'attempts': plans[5][1][:5]})


BADNAMES = ['a:b', ':', 'x:', ':x', 'a\nb', 'a\n', '\n', 'a\rb', 'a\r', 'u1:$argon2id$', 'a\n:b']


@prop
def C15(ev):
    import concurrent.futures
    bins()
    ents = Entries()
    r, trs = tlc.transitions('MC_passwd', cfg='MC_passwd_deep' if THOROUGH else 'MC_passwd')
    ev.model(r, len(trs))
    key = lambda f: json.dumps(f, sort_keys=True)
    out = {}
    for k, v in enumerate(trs):
        out.setdefault(key(v['f']), []).append(k)
    chains = []
    for rep in range(big(1, 2)):
        rnd = random.Random(SEED + rep)
        todo = {f: rnd.sample(ks, len(ks)) for f, ks in out.items()}
        for f in sorted(todo):
            while todo[f]:
                ch, cur = [], f
                while todo.get(cur) and len(ch) < 5:
                    k = todo[cur].pop()
                    ch.append(k)
                    cur = key(trs[k]['t'])
                chains.append(ch)
    def concrete(i):
        # which concrete names, passwords and shape of the file
        if i % 3 == 0:
            return confusable(random.Random('names %d/%d' % (SEED, i // 4)))
        return USERS[(i + SEED) % len(USERS)], PASSWORDS[(i // 3 + SEED) % len(PASSWORDS)]
    ents.prepare([(concrete(i)[0][l['u']], concrete(i)[1][l['p']]) for i, ch in enumerate(chains) for l in trs[ch[0]]['f']] + [FILLER])

    def run(i):
        ch = chains[i]
        us, ps = concrete(i)
        rnd = random.Random('%d/%d' % (SEED, i))
        eol = '\r\n' if rnd.random() < 0.2 else '\n'
        lines, more = [ents.get(us[l['u']], ps[l['p']]) for l in trs[ch[0]]['f']], []
        if rnd.random() < 0.2:
            lines, more = filled(rnd, ents, lines, us, rnd.choice([5, 20, 64, 300, 700, 1500, 3000]))
        text = ''.join(lines).replace('\n', eol)
        if rnd.random() < 0.3 and text:
            text = text[:-len(eol)]
        f = os.path.join(scratch(), 'pw%d' % i)
        with open(f, 'w', newline='') as fh:
            fh.write(text)
        steps, jobs = [{'file': text}], []
        for n, k in enumerate(ch):
            e = trs[k]['e']
            if e['op'] in ('set', 'del'):
                u = us[e['u']]
                args = ['--password=' + ps[e['p']]] if e['op'] == 'set' else ['-d']
            else:
                u = rnd.choice(BADNAMES)
                args = ['--password=x'] if e['op'] == 'badset' else ['-d']
            before = open(f, 'rb').read()
            res = tool(['--file=' + f, '--user=' + u] + args)
            after = open(f, 'rb').read()
            steps.append({'tool': args[0], 'user': u, 'exit': res.returncode, 'file': after.decode('utf8', 'replace')})
            bad = None
            if not e['ok']:
                if after != before:
                    bad = 'an invalid user name %r changed the file' % u
                elif e['op'] == 'badset' and res.returncode == 0:
                    bad = 'the user name %r was not rejected' % u
            elif e['op'] == 'set' and res.returncode != 0:
                bad = 'setting the password of %r failed: %s' % (u, res.stderr[-200:])
            try:
                content = after.decode()
            except UnicodeDecodeError:
                bad = 'the file is not text any more'
            if bad:
                return i, bad, steps, []
            sc = Script(i * 10 + n, SEED, {'creds': CREDS})
            c = 0
            probes = [(x, y) for x in sorted(trs[k]['o']) for y in ('p', 'q', 'other')]
            rnd.shuffle(probes)
            for x, y in probes:
                c += 1
                y2 = ps[y]
                if y == 'other' and sc.r.random() < 0.6:
                    y2 = near(sc.r, ps[trs[k]['o'][x]] if trs[k]['o'][x] in ps else ps['p'], [ps['p'], ps['q']])
                attempt(sc, c, us[x], y2, trs[k]['o'][x] == y)
                sc.op('x', c, 'fin')
            for u in more:
                c += 1
                attempt(sc, c, u, FILLER[1], True)
                sc.op('x', c, 'fin')
            sc.op('A')
            jobs.append({'id': i * 10 + n, 'ops': sc.ops, 'hdr': {'passwd': content}})
        os.unlink(f)
        return i, None, steps, jobs

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, range(len(chains))))
    for i, bad, steps, _ in res:
        if bad:
            raise Violation(replay_file('C15', 'tool-%d' % i, {'property': 'C15', 'what': bad, 'steps': steps}), bad)
    log('%d uses of the tool' % sum(map(len, chains)))
    jobs = [j for _, _, _, js in res for j in js]
    summ = check_job('C15', {'ignore': ['sp'], 'workers': 8}, jobs, describe=lambda i: {'steps': res[i // 10][2][:i % 10 + 2], 'users': concrete(i // 10)[0],
                     'passwords': concrete(i // 10)[1], 'expected': trs[chains[i // 10][i % 10]]['o']}, what='MC_passwd')
    ev.traces += summ['done']
    ev.add('tool_uses', sum(map(len, chains)))
    ev.add('admission_tables_probed', summ['done'])
    ev.sample({'steps': [trs[k]['e'] for k in chains[7]], 'table_after': trs[chains[7][-1]]['o'], 'users': concrete(7)[0]})
