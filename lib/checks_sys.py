"""The properties about the broker as a process: C12, C16, C19, C20."""
import random
from env import *
import tlc, wire
from conc import Script
from graph import Graph
from runner import *
from checks import *
from checks import IGN, PUBS, SUBS
import checks

SOCK = 500          # milliseconds are not counted here: sockets are awaited


def junk(r):
    """bytes that are not a packet, or not one a server may receive"""
    return r.choice([bytes(r.getrandbits(8) | 0x80 for _ in range(r.choice([5, 50, 5000]))), b'\x00' * 10, b'\xff' * 9,
                     b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03' + bytes(200),
                     b'\x10\xff\xff\xff\xff\x7f', b'\x30\x80\x80\x80\x80\x01', wire.packet(0x20, b'\0\0'),
                     wire.packet(0x10, b'\0\4MQTT\4\xc2\0\0\0\0\0\1'), wire.packet(0x10, b'\0')])


def odd(r):
    """a piece of text with characters of every length, as long as it likes"""
    kind = r.choice(['ascii', 'ascii', 'two', 'three', 'four', 'mix', 'mix', 'odd'])
    abc = {'ascii': 'abcXYZ019 _-', 'two': 'äößñЖ', 'three': '日本語€', 'four': '😀🎉𝄞',
           'mix': 'aä日😀b', 'odd': '\x01\x1f\x7f\x80\x9b\t\r\n "\'\\%${};&\u2028\u202e\ufeff\ufffd'}[kind]
    n = r.choice([0, 0, 1, 3, 7, 10, 15, 20, 30, 50, 60, 63, 64, 65, 100, 127, 128, 200, 256, 500] * 3 + [5000])
    return ''.join(r.choice(abc) for _ in range(n)) if n < 1000 else r.choice(abc) * n


class Crowd:
    """turns behaviours of Crowd into driver operations"""

    def __init__(self, jid, listeners=1, loud=False, prop=None, eat=False):
        self.sc = Script(jid, SEED, {'creds': CREDS})
        self.r = self.sc.r
        self.id = jid
        self.nl = listeners
        self.n = 10
        self.prop = prop
        self.eat = eat          # no visitor leaves unread what it gets
        self.loud = loud        # clients that are still sending when something happens
        self.live = []          # (connections, situation)
        self.k = 0
        # the good clients
        for c in (1, 2):
            self.open(c)
            self.sc.send(c, wire.connect('good%d_%x' % (c, jid)))
            self.sc.op('q', c, wire.connack(0).hex())
            self.sc.op('d', c)
            self.sc.send(c, wire.subscribe(c, ['g/%d' % c]))
            self.sc.op('q', c, wire.suback(c, 1).hex())
            self.sc.op('d', c)

    def open(self, c):
        self.sc.op('o', c, self.r.randrange(self.nl))

    def fresh(self):
        self.n += 1
        self.open(self.n)
        return self.n

    def round(self, newcomer=True):
        """the good clients are served, and so is a new one"""
        sc, r = self.sc, self.r
        self.k += 1
        for a, b in r.sample([(1, 2), (2, 1)], r.choice([1, 2])):
            m = wire.publish('g/%d' % b, b'%d' % self.k)
            sc.send(a, m)
            sc.op('q', b, m.hex())
            sc.op('d', b)
        sc.op('p', r.choice([1, 2]))
        if newcomer:
            c = self.fresh()
            sc.send(c, wire.connect('new%x_%d' % (self.id, self.k)) + wire.subscribe(1, ['g/1']) + wire.PINGREQ)
            for e in (wire.connack(0), wire.suback(1, 1), wire.PINGRESP):
                sc.op('q', c, e.hex())
            sc.op('d', c)
            if r.random() < 0.5:
                sc.send(c, wire.DISCONNECT)
                sc.op('z', c)
                sc.op('d', c)
            sc.op('x', c, r.choice(['fin', 'rst']))

    def come(self, x):
        sc, r = self.sc, self.r
        c = self.fresh()
        cs = [c]
        p, a = x['p'], x['a']
        cid = 'v%x_%d%s' % (self.id, c, odd(r))
        own = 'v/%d%s' % (c, odd(r))
        nobody = 'v/nobody/' + own + odd(r)
        eating = False
        will = r.choice([None, None, ('w/' + own, b'gone', 1, 1)])

        def connect():
            sc.send(c, wire.connect(cid, will=will, clean=r.random() < 0.5, keepalive=r.choice([0, 1, 60])))

        def answered():
            sc.op('q', c, wire.connack(0).hex())
            sc.op('d', c)
        if p == 'refused':
            for _ in range(r.choice([1, 1, 4])):
                sc.send(c, wire.connect(cid, *r.choice([('nobody', 'x'), ('user', 'wrong'), ('user', None), ('', ''), (odd(r), odd(r)), ('user', odd(r))])))
        elif p == 'up':
            connect()
            answered()
        elif p == 'sub':
            connect()
            answered()
            f = [own, own + '/#', 'v/+'] + (['#'] if r.random() < 0.5 else [])
            sc.send(c, wire.subscribe(7, f))
            sc.op('q', c, wire.suback(7, len(f)).hex())
            sc.op('d', c)
            if self.eat or r.random() < 0.5:
                eating = True
                sc.op('eat', c)
        elif p == 'deep':
            connect()
            answered()
            # how many levels a name may have is the matter of C12 only
            most = 60000 if self.prop == 'C12' else 200
            f = ['/'.join(['x'] * min(most, r.choice([100, 5000, 30000]))) + own, '/' * min(most, r.choice([3000, 60000])), own]
            f += ['%s/%d/+/#' % (own, i) for i in range(r.choice([10, 300]))]
            f = [x for x in f if len(x.encode()) <= 65535]
            sc.send(c, wire.subscribe(7, f))
            sc.op('q', c, wire.suback(7, len(f)).hex())
            sc.op('d', c)
            sc.send(c, wire.publish('/'.join(['x'] * min(most, 30000)), b'') + wire.publish('/' * most, b''))
        elif p == 'over':
            sc.send(c, wire.connect(cid, will=will) + wire.DISCONNECT)
        elif p == 'again':
            sc.send(c, wire.connect(cid) + wire.subscribe(1, [own]) + wire.connect(cid if r.random() < 0.5 else 'v'))
        elif p == 'taken':
            connect()
            answered()
            d = self.fresh()
            cs.append(d)
            sc.send(d, wire.connect(cid))
            sc.op('q', d, wire.connack(0).hex())
            sc.op('d', d)
        if self.loud and r.random() < 0.7:
            sc.op('bg', c)
            if not eating:
                sc.op('eat', c)
                eating = True
        few = 15 if p == 'sub' and not eating else 1
        if a == 'partial':
            b = r.choice([wire.connect(cid), wire.subscribe(3, [own, 'b']), wire.publish(own, b'abc' * 50)])
            sc.send(c, b[:r.randint(1, len(b) - 1)])
        elif a == 'huge':
            sc.send(c, bytes([r.choice([0x30, 0x10, 0x82, 0xa2])]) + b'\xff\xff\xff\x7f' + bytes(r.choice([0, 3, 5000])))
        elif a == 'garbage':
            sc.send(c, junk(r))
        elif a == 'bad':
            sc.send(c, sc.bad())
        elif a == 'pings':
            sc.op('r', c, wire.PINGREQ.hex(), r.choice([40, 1000, 5000]))
        elif a == 'pubs':
            sc.op('r', c, wire.publish(nobody, b'x' * r.choice([0, 30, 1000])).hex(), r.choice([50, 500, 2000]))
        elif a == 'bigpub':
            h = wire.publish_head(nobody, 3000000)
            sc.op('g', c, h.hex(), 3000000, r.getrandbits(32))
        elif a == 'acks':
            sc.send(c, b''.join(wire.ack(k, i) for i in (1, 65535) for k in ('puback', 'pubrec', 'pubrel', 'pubcomp')) +
                    b''.join(wire.publish(nobody, b'', qos=q, pid=i + 1) for i in range(50) for q in (1, 2)))
        elif a == 'subs':
            sc.send(c, b''.join(wire.subscribe(i + 1, ['%s/s/%d' % (own, i), 'v/nobody/+' + own[1:]]) + wire.unsubscribe(i + 1, ['%s/s/%d' % (own, r.randrange(i + 1))])
                                for i in range(r.choice([5, 200]))))
        elif a == 'self':
            sc.op('r', c, wire.publish(own, b'y' * 20).hex(), 15 if few == 15 else 300)
        elif a == 'bytes':
            b = r.choice([wire.connect(cid), wire.subscribe(3, [own + '/z']), wire.publish('v/nobody', b'abc')])
            sc.op('t', c, b.hex(), list(range(1, len(b))), 30)
        elif a == 'midpub':
            h = wire.publish_head('v/nobody', 1000000)
            sc.op('g', c, h.hex(), r.choice([10, 100000, 999999]), r.getrandbits(32))
        elif a == 'conns':
            # connections that are opened and closed at once
            k = r.choice([5, 60])
            sc.op('O', self.n + 1, k, r.randrange(self.nl))
            for i in range(k):
                if r.random() < 0.5:
                    sc.send(self.n + 1 + i, r.choice([wire.connect('%s_%d' % (cid, i)), wire.connect(cid), b'\x10']))
            sc.op('X', self.n + 1, k, r.choice(['fin', 'rst']))
            self.n += k
        self.live.append(cs)

    def leave(self, i, way):
        for c in self.live.pop(i):
            if way == 'half':
                self.sc.op('x', c, 'half')
                self.sc.op('x', c, 'fin')
            else:
                self.sc.op('x', c, way)

    def interrupt(self):
        """the process ends, and with it all connections and listeners"""
        sc = self.sc
        if self.r.random() < 0.3:
            sc.op('w', self.r.choice([100, 1000, 20000]))
        sc.op('I')
        sc.op('E', 0, 8000)
        sc.op('L', 0)
        sc.op('Z', [c for cs in self.live for c in cs] + [1, 2])

    def finish(self):
        sc = self.sc
        self.round()
        for i in reversed(range(len(self.live))):
            self.leave(i, self.r.choice(['fin', 'rst', 'half']))
        self.round()
        for c in (1, 2):
            sc.op('p', c)
        for c in (1, 2):
            sc.op('x', c, 'fin')
        sc.op('A')

    def job(self, steps, sockets=False, hdr=None):
        """steps: (event, outputs)"""
        over = False
        for e, o in steps:
            if e['op'] == 'come':
                self.come(e['x'])
            elif e['op'] == 'leave':
                self.leave(e['i'] - 1, e['way'])
            else:
                if self.r.random() < 0.5 or not self.loud:
                    self.round(False)
                self.interrupt()
                over = True
                break
            if not self.loud:
                self.round(self.r.random() < 0.5)
            if sockets:
                # the good clients and the visitors
                self.sc.op('F', 2 + o['sockets'])
        if not over:
            self.finish()
            if sockets:
                self.sc.op('F', 0)
        j = {'id': self.id, 'ops': self.sc.ops}
        if hdr:
            j['hdr'] = hdr
        return j


def say(steps):
    return [e['op'] + (' %s/%s' % (e['x']['p'], e['x']['a']) if 'x' in e else ' %s' % e['way'] if 'way' in e else '') for e, _ in steps]


def crowd(ev, prop, cfg, hdr, maxlen=12, sockets=False, loud=False, listeners=1, limit=None, sample=None, base=0):
    """every transition of a configuration of Crowd"""
    r, trs = tlc.transitions('MC_crowd', cfg=cfg)
    ev.model(r, len(trs))
    if sample and len(trs) > sample:
        # all transitions out of the initial state and those that lead back, and some of the others
        rnd = random.Random(SEED)
        one = [v for v in trs if len(v['f']['live']) == 0 or (len(v['f']['live']) == 1 and not v['t']['live'])]
        rest = [v for v in trs if v not in one] if len(trs) < 2000 else [v for v in trs if len(v['f']['live']) + len(v['t']['live']) > 2]
        trs = one + rnd.sample(rest, sample)
    g = Graph(trs, init={'live': [], 'run': 'yes'})
    paths, cov = g.tours(SEED, maxlen, limit)
    seqs = [[(g.edges[k][2], g.edges[k][3]) for k in p] for p in paths]
    run_crowd(ev, prop, cfg, hdr, seqs, sockets, loud, listeners, base)
    ev.count('transitions_replayed', cov)


def crowd_sim(ev, prop, cfg, hdr, num, depth, sockets=False, loud=False, listeners=1, base=50000, eat=False):
    r, beh = tlc.simulate('MC_crowd', num, depth, SEED, cfg=cfg)
    ev.states += r.states
    ev.transitions += r.generated
    run_crowd(ev, prop, cfg, hdr, [[(e, o) for _, e, o, _ in b] for b in beh], sockets, loud, listeners, base, eat)
    ev.count('simulated_steps_replayed', sum(map(len, beh)))


def run_crowd(ev, prop, what, hdr, seqs, sockets, loud, listeners, base, eat=False):
    jobs = [Crowd(base + i, listeners, loud, prop, eat).job(s, sockets) for i, s in enumerate(seqs)]
    h = {'ignore': ['flags', 'payload', 'pid', 'codes', 'sp'], 'passwd': passwd(), 'workers': 8, 'listeners': listeners}
    h.update(hdr)
    summ = check_job(prop, h, jobs, describe=lambda i: say(seqs[i - base]), what=what)
    ev.traces += summ['done']
    ev.count('packets_sent', summ['sent'])
    ev.count('packets_compared', summ['recv'])
    ev.sample({'model': what, 'behaviour': say(seqs[len(seqs) // 2])})


def expected_to_fail(cfg, what, mod='MC_sys'):
    """the model shows what the repair (or the known finding) is about"""
    r = tlc.run(mod, cfg=cfg, must_pass=False, workers=2)
    if what not in r.text:
        raise ToolError('%s: the model does not fail as it should' % cfg)


def stall_job(jid, interrupt):
    """the known finding: a client subscribes, never reads, and others publish to it more than fits"""
    sc = Script(jid, SEED, {'creds': CREDS})
    for c in (1, 2, 3):
        sc.op('o', c, 0)
        sc.send(c, wire.connect('st%d_%d' % (jid, c)))
        sc.op('q', c, wire.connack(0).hex())
        sc.op('d', c)
    sc.send(1, wire.subscribe(1, ['s']))
    sc.op('q', 1, wire.suback(1, 1).hex())
    sc.op('d', 1)
    sc.op('bg', 2)
    h = wire.publish_head('s', 300000)
    sc.op('T', 2, [[h.hex(), 300000, 1]] * 100, [], 0)
    sc.op('w', 2000000)
    if interrupt:
        sc.op('I')
        sc.op('E', 0, 8000)
        sc.op('L', 0)
        sc.op('Z', [1, 2, 3])
    else:
        sc.op('p', 3)
        # when the client goes away everything goes on
        sc.op('x', 1, 'rst')
        sc.op('p', 3)
    return {'id': jid, 'ops': sc.ops, 'hdr': {'passwd': '', 'base': True}}


def fd_job(jid, r, prop='C12', listeners=1, stop=False):
    """more connections than the process may have open files: those that are there are served, and when the
    others are gone new ones are accepted, or the process is interrupted before"""
    c = Crowd(jid, listeners, prop=prop)
    sc = c.sc
    for _ in range(2):
        c.round()
        k = 150
        for j in range(listeners):
            sc.op('O', 1000 + j * (k // listeners), k // listeners, j)
        k = k // listeners * listeners
        for i in range(k):
            if r.random() < 0.3:
                sc.send(1000 + i, wire.connect('fd%d_%d' % (jid, i)))
        for _ in range(3):
            c.round(False)
        if stop:
            c.live.append([1000 + i for i in range(k)])
            c.interrupt()
            return {'id': jid, 'ops': sc.ops, 'hdr': {'passwd': '', 'nofile': 64, 'base': True, 'listeners': listeners}}
        sc.op('X', 1000, k, r.choice(['fin', 'rst']))
        # some of the connections may still be waiting to be accepted
        c.round()
        sc.op('L', listeners)
    c.finish()
    sc.op('F', 0)
    return {'id': jid, 'ops': sc.ops, 'hdr': {'passwd': '', 'nofile': 64, 'base': True, 'listeners': listeners}}


@prop
def C12(ev):
    # the design: queues, tasks and sockets
    for cfg in ['MC_sys_shared', 'MC_sys_own', 'MC_sys_fits'] + (['MC_sys_full', 'MC_sys_full_own', 'MC_sys_three'] if THOROUGH else []):
        r = tlc.run('MC_sys', cfg=cfg, workers=8, timeout=850)
        ev.model(r, r.generated)
    expected_to_fail('MC_sys_stall', 'Temporal property Processed was violated')
    # situations of visitors, one by one, in pairs, in crowds
    h = {}
    crowd(ev, 'C12', 'MC_crowd', h, maxlen=16)
    crowd(ev, 'C12', 'MC_crowd_two', h, maxlen=24, sample=big(500, 20000), base=10000)
    crowd_sim(ev, 'C12', 'MC_crowd_sim', h, big(20, 400), 30)
    # every operation in every state of the broker, the effects of each exactly
    broker_replay(ev, 'C12', 'MC_hostile', {'pipe': 0.7, 'seg': 0.1}, {'ignore': IGN['C12']}, limit=big(400, None))
    broker_simulate(ev, 'C12', 'MC_big', {'pipe': 0.9}, {'ignore': IGN['C12']}, big(80, 2000), 120)
    # more than a thousand at the same time
    crowd_sim(ev, 'C12', 'MC_crowd_big', h, 1, big(1400, 3300), base=200000, eat=True)
    no_files(ev, 'C12', [1, 1, 1, 2])
    import checks_soak
    checks_soak.many_visits(ev, 'C12', big(1500, 5000))
    stalled(ev, 'C12')


def no_files(ev, prop, listeners, stop=False):
    """open files run out"""
    rnd = random.Random(SEED)
    jobs = [fd_job(i, rnd, prop, listeners[i % len(listeners)], stop) for i in range(big(4, 30))]
    summ = check_job(prop, {'ignore': ['flags', 'payload', 'pid', 'codes', 'sp'], 'workers': 4}, jobs, what='open-files')
    ev.traces += summ['done']
    ev.add('times_without_files', 2 * len(jobs))


def stalled(ev, prop):
    """the known finding, demonstrated; anything but the stall itself is a violation"""
    job = stall_job(7, False)
    summ, bad = run_job({'ignore': ['flags', 'sp'], 'workers': 1, 'timeout_ms': 3000}, [job])
    if not bad:
        ev.add('stalled_reader', 'others are served')
        return
    b = bad[0]
    if b['kind'] == 'timeout' and b['conn'] == 3 and job['ops'][b['op']] == ['p', 3] and job['ops'][b['op'] + 1][0] == 'x' \
            and known_finding(prop, 'stalled-reader'):
        ev.add('stalled_reader', 'others are not served')
        # and they are again when it is gone
        k = b['op']
        rest = dict(job, ops=job['ops'][:k] + job['ops'][k + 1:])
        check_job(prop, {'ignore': ['flags', 'sp'], 'workers': 1}, [rest], what='stalled-reader')
        return
    f = replay_file(prop, 'stalled-reader', {'property': prop, 'deviation': b, 'script': job['ops']})
    raise Violation(f, '%s: expected %s, got %s' % (b['kind'], b['exp'], b['got']))


# ------------------------------------------------------------------------------------ C19
@prop
def C19(ev):
    for cfg in ['MC_sys_stop', 'MC_sys_stall_stop']:
        r = tlc.run('MC_sys', cfg=cfg, workers=8, timeout=600)
        ev.model(r, r.generated)
    expected_to_fail('MC_sys_stop_before', 'Temporal property Stops was violated')
    # one visitor in every situation, then crowds; quiet and in the middle of traffic
    h = {'base': True}
    crowd(ev, 'C19', 'MC_crowd_stop', h, maxlen=3)
    for i, loud in enumerate((False, True)):
        crowd_sim(ev, 'C19', 'MC_crowd_stopsim', h, big(100, 1200), 14, loud=loud, listeners=3, base=50000 * (i + 1))
    # a client that does not read what it gets
    # hundreds of visitors
    crowd_sim(ev, 'C19', 'MC_crowd_stopmany', h, big(4, 24), 260, base=150000, eat=True)
    no_files(ev, 'C19', [1, 3], True)
    summ = check_job('C19', {'ignore': ['flags', 'sp'], 'workers': 2}, [stall_job(i, True) for i in range(big(2, 8))], what='stalled-reader')
    ev.traces += summ['done']


# ------------------------------------------------------------------------------------ C20
@prop
def C20(ev):
    for cfg in ['MC_sys_shared', 'MC_sys_own']:
        r = tlc.run('MC_sys', cfg=cfg, workers=8, timeout=600)
        ev.model(r, r.generated)
    h = {'base': True}
    crowd(ev, 'C20', 'MC_crowd', h, maxlen=16, sockets=True)
    crowd_sim(ev, 'C20', 'MC_crowd_sim', h, big(30, 500), 30, sockets=True)
    cycles(ev)
    import checks_soak
    checks_soak.many_visits(ev, 'C20', big(4500, 20000))
    no_files(ev, 'C20', [1, 2])


# bytes a cycle would leave behind if what the load is about were kept, and packets that make it
def cycle(sc, c, load, end, k):
    """one client that comes, gets something and goes; returns the bytes it made the broker keep"""
    r = sc.r
    tag = 'y%x_%d' % (sc.id, k)
    long = lambda i: ('%s_%d_' % (tag, i)).ljust(60000, 'z')
    cid, will, keep, user, pw = tag, None, 0, None, None
    subs = []
    if load == 'ids':
        cid = long(0)
        keep = 60000
    elif load == 'will':
        will = (long(1), b'w' * 60000, 1, 1)
        keep = 120000
    elif load == 'refused':
        cid, user, pw = long(0), long(2), long(3)
        keep = 180000
    sc.op('o', c, 0)
    sc.send(c, wire.connect(cid, user, pw, will=will))
    if load == 'refused':
        sc.op('q', c, wire.connack(5).hex())
        sc.op('z', c)
        sc.op('d', c)
    else:
        sc.op('q', c, wire.connack(0).hex())
        sc.op('d', c)
    if load == 'filters':
        subs = [long(i) for i in range(10)]
        keep = 600000
    elif load == 'levels':
        subs = [('%s/%d' % (tag, i)) + '/l' * 400 for i in range(25)]
        keep = 1000000
    elif load == 'churn':
        subs = [long(i) for i in range(5)]
        keep = 300000
    elif load == 'queued':
        subs = [tag + '/q']
    for n in range(0, len(subs), 5):
        part = subs[n:n + 5]
        sc.send(c, wire.subscribe(n + 1, part))
        sc.op('q', c, wire.suback(n + 1, len(part)).hex())
        if load == 'churn':
            sc.send(c, wire.unsubscribe(n + 2, part))
            sc.op('q', c, wire.unsuback(n + 2).hex())
    if subs:
        sc.op('d', c)
    if load == 'queued':
        h = wire.publish_head(subs[0], 500000)
        sc.op('T', 1, [[h.hex(), 500000, 1]] * 20, [], 0)
        sc.op('p', 1)
        keep = 4000000
    elif load == 'partial':
        h = wire.publish_head('nobody', 2000000)
        sc.op('g', c, h.hex(), 1000000, 1)
        keep = 1000000
    elif load == 'topics':
        sc.send(c, b''.join(wire.publish(long(i), b'') for i in range(10)))
        sc.op('p', c)
        keep = 600000
    other = None
    if end == 'disc':
        sc.send(c, wire.DISCONNECT)
    elif end == 'bad':
        sc.send(c, b'\xf0\x00')
    elif end == 'connect':
        sc.send(c, wire.connect(tag))
    elif end == 'taken' and load != 'refused':
        other = c + 1
        sc.op('o', other, 0)
        sc.send(other, wire.connect(cid))
        sc.op('q', other, wire.connack(0).hex())
        sc.op('d', other)
    if end in ('disc', 'connect', 'bad', 'taken') and load not in ('queued', 'partial', 'refused'):
        sc.op('z', c)
        sc.op('d', c)
    if end == 'half':
        sc.op('x', c, 'half')
        if load != 'queued':
            sc.op('z', c)
            sc.op('d', c)
    if end == 'rst':
        sc.op('x', c, 'rst')
    else:
        sc.op('x', c, 'fin')
    if other:
        sc.op('x', other, r.choice(['fin', 'rst']))
    return keep


def cycles_job(jid, load, end, total):
    """the same cycle until `total` bytes would have been left; memory before and after"""
    sc = Script(jid, SEED, {'creds': CREDS})
    sc.op('o', 1, 0)
    sc.send(1, wire.connect('cy%d' % jid))
    sc.op('q', 1, wire.connack(0).hex())
    sc.op('d', 1)
    keep, k, n = 0, 0, None

    def probe():
        sc.op('p', 1)
        sc.op('F', 1)
        sc.op('p', 1)
        sc.op('M')
    warm = None
    while True:
        keep += cycle(sc, 10 + 2 * k, load, end, k)
        k += 1
        if k % 10 == 0:
            sc.op('p', 1)
        if warm is None and keep * 4 >= total or (load == 'plain' and k == 500):
            probe()
            warm, keep = k, 0
        elif warm and (keep >= total or (load == 'plain' and k == 2500)):
            break
    probe()
    sc.op('x', 1, 'fin')
    sc.op('F', 0)
    sc.op('A')
    return {'id': jid, 'ops': sc.ops, 'hdr': {'base': True, 'listeners': 1}}, k


def cycles(ev):
    r, trs = tlc.transitions('MC_cycles')
    ev.model(r, len(trs))
    ends = sorted((v['e']['load'], v['e']['end']) for v in trs if v['e']['op'] == 'end')
    rnd = random.Random(SEED)
    if not THOROUGH:
        # every load and every end, in changing company
        loads = sorted({l for l, _ in ends})
        kinds = sorted({e for _, e in ends})
        rnd.shuffle(kinds)
        ends = [(l, kinds[(i + j) % len(kinds)]) for i, l in enumerate(loads) for j in range(2)]
    total = big(24, 100) * 1000000
    jobs, n = [], 0
    for i, (l, e) in enumerate(ends):
        j, k = cycles_job(i, l, e, total)
        jobs.append(j)
        n += k
    # (memory that is free again has to show as such)
    malloc = {'MALLOC_ARENA_MAX': '2', 'MALLOC_MMAP_THRESHOLD_': '65536', 'MALLOC_TRIM_THRESHOLD_': '65536'}
    h = {'ignore': ['flags', 'sp'], 'passwd': passwd(), 'workers': 8,
         'envs': [dict(malloc, TOKIO_WORKER_THREADS=str(k)) for k in (1, 2, 4, 2, 1, 3)]}
    summ = check_job('C20', h, jobs, describe=lambda i: ends[i], what='MC_cycles')
    ev.traces += summ['done']
    ev.add('cycles', n)
    grown = {}
    limit = lambda i, t: t / 1000 / 3 if ends[i][0] != 'plain' else 20000
    for i, p in summ['probes']:
        grown['%s/%s' % ends[i]] = p[1] - p[0]
        if p[1] - p[0] > limit(i, total):
            # what is left behind grows with every client, what is only not given back does not
            more, k = cycles_job(i, ends[i][0], ends[i][1], 4 * total)
            p2 = check_job('C20', h, [more], what='MC_cycles')['probes'][0][1]
            log('%s: %s, again %s' % (ends[i], p, p2))
            if p2[1] - p2[0] <= limit(i, 4 * total):
                continue
            f = replay_file('C20', 'memory-%d' % i, {'property': 'C20', 'what': 'memory grows', 'load': ends[i][0], 'end': ends[i][1],
                            'kb_before_and_after': p, 'kb_with_four_times_as_many': p2, 'script': jobs[i]['ops']})
            raise Violation(f, 'after clients that came and went (%s, %s) the broker holds %d KB more' % (ends[i] + (p[1] - p[0],)))
    ev.add('kb_grown', grown)
    log(grown)


# ------------------------------------------------------------------------------------ C16
@prop
def C16(ev):
    kinds = [['port', 'port', 'port'], ['ip', 'ip', 'port'], ['six', 'port', 'any'], ['name', 'six', 'ip']]
    i = IGN['C16']
    for n, k in enumerate(kinds if THOROUGH else kinds[:1] + kinds[2:3]):
        broker_replay(ev, 'C16', 'MC_listeners', {'listeners': 3}, {'ignore': i, 'listeners': k})
    for n, k in enumerate([['any', 'name', 'six', 'ip'], ['ip', 'ip', 'ip', 'ip'], ['port', 'ip', 'six', 'name']]):
        broker_simulate(ev, 'C16', 'MC_listeners', {'listeners': 4, 'pipe': 0.5}, {'ignore': i, 'listeners': k, 'by_env': n == 0}, big(40, 800), 100,
                        cfg='MC_listeners_sim')
    # visitors in every situation, through any listener
    crowd(ev, 'C16', 'MC_crowd', {'listeners': ['port', 'ip', 'six']}, maxlen=16, listeners=3)
    import checks_soak
    many = ['port', 'ip', 'six', 'name', 'port', 'six'] * 6 + ['any']
    checks_soak.wide(ev, 'C16', i, {'listeners': many, 'by_env': SEED % 2 == 1}, len(many))
    checks_soak.wide(ev, 'C16', i, {'listeners': many[::-1], 'by_env': SEED % 2 == 0}, len(many), n=120, depth=1400, num=1)
    ev.add('listeners_at_once', len(many))
    # recorded executions: clients at different listeners acting at the same time
    import stress
    stress.validate('C16', ev, {'listeners': ['port', 'ip', 'six', 'port']}, SUBS, big(24, 400), 'listeners')
