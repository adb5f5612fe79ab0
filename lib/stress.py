"""Concurrent executions: scripts for the clients, recordings, validation by TLC (BrokerTrace)."""
import json, os, random, subprocess, time
from env import *
import tlc, wire
from conc import Namer, Script
from runner import Violation, replay_file, bins

FILTERS = [('a',), ('b',), ('a', 'b'), ('a', '+'), ('+', 'b'), ('+',), ('#',)]
TOPICS = [('a',), ('a', 'b'), ('b', 'a'), ('b', 'b'), ('c',)]


ENDS = ('disc', 'half', 'fin', 'rst', 'bad', 'again')


def checks_creds():
    from checks import CREDS
    return CREDS


class Gen:
    """one run: what each client does; profile: weights of the operations"""

    def __init__(self, rid, seed, profile):
        self.id = rid
        self.r = random.Random('stress/%s/%s' % (seed, rid))
        self.p = profile
        self.nm = Namer(self.r, 's%x_%x_' % (seed % 65536, rid))
        self.nm.style = self.r.choice(['plain', 'short', 'uni', 'case'])
        for l in 'abc':
            self.nm.plain(l)
        self.sizes = self.p.get('sizes') or self.r.choice([[0, 0, 0, 3, 30, 300, 5000], [0, 0, 0, 3, 30, 300, 5000], [0, 0, 0, 10, 5000, 17000, 70000, 200000]])
        self.decoys = self.r.choice([0, 0.03, 0.3])
        self.events = {}        # connection -> list of symbolic events
        self.nconn = 0
        self.msgs = {}          # payload -> (connection, number, topic)
        self.clients = []
        self.gone = set()        # connections whose client closes the socket
        n = self.r.randint(*profile['clients'])
        for i in range(n):
            self.client(i)
        # recordings number the connections from 1
        self.topic_sym = {self.nm.topic(t): t for t in TOPICS}

    def open(self, ops, i):
        """a connection with a session (before it perhaps some that do not get one)"""
        r, p = self.r, self.p
        while True:
            self.nconn += 1
            k = self.nconn
            self.events[k] = []
            ops.append(['o', k, r.randrange(8)])
            cid = 'own%d' % i
            if r.random() < p.get('shared', 0):
                cid = 'shared%d' % r.randrange(p.get('ids', 1))
            elif r.random() < 0.1:
                cid = ''
            first = r.random() < p.get('turned', 0)
            cred = 'wrong' if first and r.random() < 0.7 else r.choice(p.get('creds', ['anon']))
            part = []
            if not first or cred == 'wrong':
                u, pw = checks_creds()[cred]
                part.append(self.ev(k, {'op': 'connect', 'id': cid, 'cred': cred},
                            wire.connect(self.nm.client(cid), u, pw, clean=True, keepalive=r.choice([0, 60]))))
            if not first:
                if r.random() < 0.7:
                    ops.append(['s', k, part])
                    ops.append(['a', k, 1])
                    return k, 1
                # requests behind the CONNECT
                replies = 1
                for _ in range(r.randint(1, 3)):
                    b, rep = self.one(k, r.choice(['sub', 'ping', 'pub']))
                    part.append(b)
                    replies += rep
                ops.append(['s', k, part])
                return k, replies
            for _ in range(r.randint(0 if part else 1, 3)):
                part.append(self.one(k, r.choice(['pub', 'sub', 'unsub', 'ping', 'disc']))[0])
            ops.append(['s', k, part])
            ops.append(['a', k, 10 ** 9])

    def ev(self, k, e, data):
        self.events[k].append(e)
        return [len(self.events[k]) - 1, data.hex()]

    def one(self, k, op):
        r, nm = self.r, self.nm
        n = len(self.events[k])
        if op == 'sub' or op == 'unsub':
            fs = [r.choice(FILTERS) for _ in range(r.choice([1, 1, 1, 2]))]
            pid = n + 1
            f = wire.subscribe if op == 'sub' else wire.unsubscribe
            # many filters that match nothing before them (all the same one for the specification)
            more = r.choice([2, 15, 16, 17, 40, 130]) if r.random() < self.decoys else 0
            wfs = [nm.uniq + 'none/%d' % (x % 97) for x in range(more)] + [nm.topic(x) for x in fs]
            return self.ev(k, {'op': op, 'fs': [('zz',)] * more + fs, 'pid': pid}, f(pid, wfs)), 1
        if op == 'pub':
            t = r.choice(TOPICS[:4] if r.random() < 0.9 else TOPICS)
            tag = '%d.%d' % (k, n)
            q = r.choice([0, 0, 0, 1, 2])
            pl = (tag + '.').encode() + b'x' * r.choice(self.sizes)
            return self.ev(k, {'op': 'pub', 'topic': t, 'tag': tag}, wire.publish(nm.topic(t), pl, qos=q, pid=n + 1)), 0
        if op == 'ping':
            return self.ev(k, {'op': 'ping'}, wire.PINGREQ), 1
        if op == 'disc':
            return self.ev(k, {'op': 'disc'}, wire.DISCONNECT), 1
        if op == 'bad':
            return self.ev(k, {'op': 'bad'}, Script.bad(self)), 1
        if op == 'again':
            cid = r.choice(['', 'again', 'shared0'])
            return self.ev(k, {'op': 'connect', 'id': cid, 'cred': 'anon'}, wire.connect(nm.client(cid))), 1
        raise AssertionError(op)

    def client(self, i):
        r, p = self.r, self.p
        ops = []
        k, replies = self.open(ops, i)
        mine = dict(p['weights'])
        role = r.random()
        if role < 0.3:
            mine['pub'] *= 3
        elif role < 0.6:
            mine['pub'] *= 0.3
        kinds = list(mine)
        w = [mine[x] for x in kinds]
        n = r.randint(*p['ops'])
        done = 0
        while done < n:
            burst = r.choice(p['bursts'])
            part = []
            want = 0
            ended = False
            for _ in range(burst):
                op = r.choices(kinds, w)[0]
                if op in ENDS:
                    ended = op
                    break
                b, rep = self.one(k, op)
                part.append(b)
                want += rep
            done += len(part) + 1
            if ended in ('disc', 'bad', 'again'):
                b, rep = self.one(k, ended)
                part.append(b)
                if r.random() < 0.5:        # packets behind it
                    for _ in range(r.randint(1, 3)):
                        part.append(self.one(k, r.choice(['pub', 'sub', 'ping', 'disc']))[0])
            if part:
                if r.random() < 0.5:
                    ops.append(['s', k, part])
                else:
                    for b in part:
                        ops.append(['s', k, [b]])
            replies += want
            if ended in ('fin', 'rst'):
                # (everything before has been processed)
                b, rep = self.one(k, 'ping')
                ops.append(['s', k, [b]])
                ops.append(['a', k, replies + 1])
                self.events[k].append({'op': ended})
                ops.append(['x', k, len(self.events[k]) - 1, ended])
                self.gone.add(k)
                k, replies = self.open(ops, i)
                continue
            if ended == 'half':
                self.events[k].append({'op': 'half'})
                ops.append(['h', k, len(self.events[k]) - 1])
            if ended:
                # the end of the connection is awaited; sometimes only after the new one is open
                if r.random() < 0.5:
                    ops.append(['a', k, 10 ** 9])
                    k, replies = self.open(ops, i)
                else:
                    old = k
                    k, replies = self.open(ops, i)
                    ops.append(['a', old, 10 ** 9])
                continue
            x = r.random()
            if x < p['wait']:
                ops.append(['a', k, replies])
            if r.random() < p['handoff']:
                ops.append(['y'])
        ops.append(['a', k, replies])
        # everything sent has been processed ...
        b, _ = self.one(k, 'ping')
        ops.append(['s', k, [b]])
        ops.append(['a', k, replies + 1])
        ops.append(['B'])
        # ... by all clients: the reply to this one comes after all messages
        b, _ = self.one(k, 'ping')
        ops.append(['s', k, [b]])
        ops.append(['a', k, replies + 2])
        ops.append(['B'])
        self.clients.append(ops)

    def job(self):
        return {'id': self.id, 'clients': self.clients}

    def item(self, h):
        if h is None:
            return {'t': 'eof'}
        b = bytes.fromhex(h)
        t = b[0] >> 4
        try:
            if t == 2:
                return {'t': 'connack', 'code': b[3]}
            if t == 9:
                i = 2
                while b[i - 1] & 128:
                    i += 1
                return {'t': 'suback', 'pid': b[i] << 8 | b[i + 1], 'n': len(b) - i - 2}
            if t == 11:
                return {'t': 'unsuback', 'pid': b[2] << 8 | b[3]}
            if t == 13:
                return {'t': 'pingresp'}
            if t == 3:
                i = 1
                while b[i] & 128:
                    i += 1
                i += 1
                n = b[i] << 8 | b[i + 1]
                topic = b[i + 2:i + 2 + n].decode()
                pl = b[i + 2 + n + (2 if b[0] & 6 else 0):]
                tag = '.'.join(pl.decode().split('.')[:2])
                if topic in self.topic_sym:
                    return {'t': 'msg', 'topic': self.topic_sym[topic], 'tag': tag}
        except Exception:
            pass
        return {'t': 'garbage', 'bytes': h[:80]}

    def trace(self, rec):
        """the recording in the form BrokerTrace reads"""
        n = self.nconn
        recv, stamps = [], []
        for k in range(1, n + 1):
            q = rec['recvs'].get(str(k), [])
            recv.append([self.item(h) for _, h in q])
            stamps.append([st for st, _ in q])
        import bisect
        copies = {}
        for d, q in enumerate(recv):
            for x in q:
                if x['t'] == 'msg':
                    copies.setdefault(x['tag'], [0] * n)[d] += 1
        send = [[] for _ in range(n)]
        for k, st, idx in sorted(rec['sends'], key=lambda x: x[1]):
            need = [bisect.bisect_left(stamps[d], st) for d in range(n)]
            for i in idx:
                e = dict(self.events[k][i])
                e['c'] = k
                e['need'] = need
                if e['op'] == 'pub':
                    e['copies'] = copies.get(e['tag'], [0] * n)
                send[k - 1].append(e)
        return {'send': send, 'recv': recv, 'gone': [k in self.gone for k in range(1, n + 1)]}


def record(hdr, gens):
    d, driver = bins()
    sc = os.path.join(scratch(), 'st%d' % int(time.time() * 1e6))
    os.makedirs(sc)
    h = {'bin': os.path.join(d, 'ratelmq'), 'scratch': sc, 'workers': 2,
         'envs': [{'TOKIO_WORKER_THREADS': str(k)} for k in (8, 2, 4, 1, 3)]}
    h.update(hdr)
    f = os.path.join(sc, 'job.ndjson')
    with open(f, 'w') as fh:
        fh.write(json.dumps(h) + '\n')
        for g in gens:
            fh.write(json.dumps(g.job()) + '\n')
    r = subprocess.run([driver, 'stress', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError('driver: %s %s' % (r.returncode, r.stderr[-2000:]))
    return [json.loads(l) for l in r.stdout.splitlines()]


def validate(prop, ev, hdr, profile, runs, name, procs=4):
    gens = [Gen(i, SEED, profile) for i in range(runs)]
    recs = record(hdr, gens)
    by = {g.id: g for g in gens}
    log('%s: %d executions recorded' % (name, len(recs)))
    for r in recs:
        if 'startfail' in r:
            f = replay_file(prop, name + '-start', r)
            raise Violation(f, 'the broker does not start with a valid configuration: ' + r['startfail'])
    for r in recs:
        if r['hang'] or not r['alive']:
            f = replay_file(prop, '%s-%d' % (name, r['id']), {'property': prop, 'kind': 'stress', 'profile': profile,
                            'clients': by[r['id']].clients, 'recording': r})
            raise Violation(f, 'execution %d: %s %s %s' % (r['id'], r['hang'] or '', '' if r['alive'] else 'the broker process ended;', r['stderr']))
    traces = [(r['id'], by[r['id']].trace(r)) for r in recs]
    hs = []
    for p in range(procs):
        part = traces[p::procs]
        if not part:
            continue
        f = os.path.join(scratch(), '%s_%d.ndjson' % (name, p))
        with open(f, 'w') as fh:
            for _, t in part:
                fh.write(json.dumps(t) + '\n')
        hs.append((part, f, tlc.start('MC_trace', env={'MC_TRACES': f}, workers=1, heap='2g',
                                      jvm=['-Dtlc2.tool.queue.IStateQueue=StateDeque', '-Xss64m'])))
    import re
    nsend = nrecv = steps = undecided = 0
    for part, f, h in hs:
        r = tlc.finish(h, 800, must_pass=False)
        lost = len(re.findall(r'<<"undecided", \d+>>', r.text))
        if '<<"all explained", %d>>' % len(part) in r.text and r.rc == 0:
            ev.states += r.states
            ev.transitions += r.generated
            steps += r.generated
            ev.traces += len(part) - lost
            undecided += lost
            for _, t in part:
                nsend += sum(map(len, t['send']))
                nrecv += sum(map(len, t['recv']))
            continue
        m = re.search(r'<<"furthest", "(.*)">>', r.text)
        if not m or r.rc != 0:
            raise ToolError('TLC on MC_trace:\n' + r.text[-3000:])
        fur = json.loads(m.group(1).replace('\\"', '"'))
        rid, t = part[fur['tr'] - 1]
        nxt = {}
        for c in range(len(t['send'])):
            a, b = fur['processed'][c], fur['explained'][c]
            nxt['c%d' % (c + 1)] = {'next_to_process': t['send'][c][a] if a < len(t['send'][c]) else None,
                                    'next_received': t['recv'][c][b] if b < len(t['recv'][c]) else None}
        g = by[rid]
        rp = replay_file(prop, '%s-%d' % (name, rid), {'property': prop, 'kind': 'recording rejected by BrokerTrace',
                         'profile': profile, 'furthest': fur, 'next': nxt, 'recording': t})
        raise Violation(rp, 'execution %d is not a behaviour of the specification; furthest explanation: %s' % (rid, json.dumps(nxt)[:1500]))
    if undecided > len(traces) // 3:
        raise ToolError('%d of %d recordings undecided' % (undecided, len(traces)))
    ev.count('recordings_undecided', undecided)
    ev.count('recorded_packets_sent', nsend)
    ev.count('recorded_packets_received', nrecv)
    t = traces[0][1]
    ev.sample({'recording': name, 'connections': len(t['send']),
               'first_sent': [{k: v for k, v in e.items() if k != 'need'} for e in t['send'][0][:6]], 'first_received': t['recv'][0][:6]})
    log('%s: %d recordings explained (%d sent, %d received, %d steps)' % (name, len(traces), nsend, nrecv, steps))
