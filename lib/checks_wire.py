"""The properties about bytes: C11, C13, C14."""
import random
from env import *
import tlc, wire
from conc import Script
from runner import *
from checks import *
from checks import IGN
import checks

KEEP = {'C11': 60}


def wire_job(jid, rows, cuts):
    """streams of the Wire specification, one connection each, watched by one client.
    cuts(r, bytes): how to cut a stream into segments (list of positions, pause in microseconds) or None"""
    sc = Script(jid, SEED, {'creds': CREDS})
    r = sc.r
    W = 1
    sc.op('o', W, 0)
    sc.send(W, wire.connect('the watcher'))
    sc.op('q', W, wire.connack(0).hex())
    sc.send(W, wire.subscribe(1, ['#', '$x']))
    sc.op('q', W, wire.suback(1, 2).hex())
    sc.op('d', W)
    for k, v in enumerate(rows):
        c = k + 2
        data = bytes(v['bs'])
        sc.op('o', c, 0)
        cut = cuts(r, data)
        if cut is None:
            sc.send(c, data)
        else:
            sc.op('t', c, data.hex(), cut[0], cut[1])
        mine = []
        for conn, b in v['out']:
            if conn == 1:
                mine.append(b)
            elif b:
                sc.op('q', W, bytes(b).hex())
        for b in mine:
            if b:
                sc.op('q', c, bytes(b).hex())
        if v['r'] == 'half':
            # everything so far has been answered before the end of the stream is seen
            if r.random() < 0.5:
                sc.op('d', c)
            sc.op('x', c, 'half')
        sc.op('z', c)
        sc.op('d', c)
        sc.op('x', c, r.choice(['fin', 'rst']))
        if k % 20 == 19:
            sc.op('p', W)
    sc.op('p', W)
    sc.op('p', W)
    sc.op('x', W, 'fin')
    sc.op('A')
    return {'id': jid, 'ops': sc.ops}


def random_cuts(prob):
    def f(r, data):
        if len(data) < 2 or r.random() > prob:
            return None
        k = r.choice([1, 1, 1, 2, 3])
        return sorted(r.sample(range(1, len(data)), min(k, len(data) - 1))), r.choice([0, 100, 300])
    return f


def wire_rows(ev, cfg):
    r, trs = tlc.transitions('MC_wire', cfg=cfg, workers=6)
    ev.model(r, len(trs))
    rows = [v for v in trs if v['r'] != 'open']
    ev.count('streams_not_specified', len(trs) - len(rows))
    return rows


def run_streams(ev, prop, rows, what, cuts, per=100):
    rnd = random.Random(SEED)
    rows = rows[:]
    rnd.shuffle(rows)
    parts = [rows[i:i + per] for i in range(0, len(rows), per)]
    jobs = [wire_job(i, p, cuts) for i, p in enumerate(parts)]
    summ = check_job(prop, {'ignore': [], 'passwd': passwd(), 'workers': 8}, jobs, what=what)
    ev.traces += len(rows)
    ev.count('streams', len(rows))
    ev.count('packets_compared', summ['recv'])
    for v in rows[:2]:
        ev.sample({'model': what, 'stream': bytes(v['bs']).hex(), 'result': v['r'], 'packets_processed': v['n'],
                   'outputs': [[c, bytes(b).hex() if b else 'EOF'] for c, b in v['out']]})


@prop
def C11(ev):
    ev.add('streams_not_specified', 0)
    run_streams(ev, 'C11', wire_rows(ev, 'MC_wire_deep' if THOROUGH else 'MC_wire'), 'MC_wire', random_cuts(0.1))
    r, rows = tlc.simulated_rows('MC_wire', 'MC_wire_sim', big(6, 80), 4, SEED)
    ev.model(r, r.generated)
    run_streams(ev, 'C11', [v for v in rows if v['r'] != 'open'], 'MC_wire_sim', random_cuts(0.1))
    h = {'ignore': ['flags', 'codes', 'sp']}
    broker_replay(ev, 'C11', 'MC_invalid', {}, h)


# ------------------------------------------------------------------------------------ C13
def sized_packet(r, size, topic):
    """a packet of exactly that size: (head, filler size, filler seed), the delivered form or None"""
    if size == 2:
        return (wire.PINGREQ, 0, 0), None
    for lenbytes in (1, 2, 3, 4):
        body = size - 1 - lenbytes
        if body >= 3 and len(wire.enc_len(body)) == lenbytes:
            t = topic[:body - 2]
            seed = r.getrandbits(32)
            n = body - 2 - len(t)
            head = bytes([0x30]) + wire.enc_len(body) + wire.mstr(t)
            return (head, n, seed), (head, n, seed)
    raise AssertionError(size)


def buffer_job(jid, paths, start):
    """paths: each the packets (size, cuts) on one connection whose CONNECT is `start` bytes long"""
    sc = Script(jid, SEED, {'creds': CREDS})
    r = sc.r
    sc.op('o', 2, 0)
    sc.send(2, wire.connect(sc.nm.client('r')))
    sc.op('q', 2, wire.connack(0).hex())
    sc.send(2, wire.subscribe(1, ['#']))
    sc.op('q', 2, wire.suback(1, 1).hex())
    sc.op('d', 2)
    for n, steps in enumerate(paths):
        pub = n + 3
        sc.op('o', pub, 0)
        c = wire.connect(('b%x_%x_' % (jid, n)).ljust(start - 14, '.'))
        assert len(c) == start
        sc.send(pub, c)
        sc.op('q', pub, wire.connack(0).hex())
        sc.op('d', pub)
        i = 0
        while i < len(steps):
            run = steps[i:i + r.choice([1, 1, 2, 3, 5])]
            i += len(run)
            parts, cuts, at, exps = [], [], 0, []
            for k, e in enumerate(run):
                if k and r.random() < 0.4:
                    cuts.append(at)
                p, d = sized_packet(r, e['size'], b'tp'[:r.choice([1, 2])])
                parts.append([p[0].hex(), p[1], p[2]])
                cuts += [at + x for x in e['cuts']]
                at += e['size']
                exps.append(d)
            sc.op('T', pub, parts, cuts, r.choice([0, 150, 400]))
            for d in exps:
                if d is None:
                    sc.op('q', pub, wire.PINGRESP.hex())
                else:
                    sc.op('G', 2, d[0].hex(), d[1], d[2])
            sc.op('d', pub)
            sc.op('d', 2)
        sc.op('p', pub)
        sc.op('x', pub, 'fin')
    sc.op('p', 2)
    sc.op('x', 2, 'fin')
    sc.op('A')
    return {'id': jid, 'ops': sc.ops}


@prop
def C13(ev):
    h = {'ignore': ['flags', 'sp'], 'passwd': passwd()}
    silent = Alongside(idle, ev, 'C13', IGN['C13'], 0.5)
    # the design: the reader of the specification and the buffer as it is built
    r = tlc.run('MC_readbuffer')
    ev.model(r, r.generated)
    r = tlc.run('MC_readbuffer', cfg='MC_readbuffer_before', must_pass=False)
    if 'Invariant Progress is violated' not in r.text:
        raise ToolError('the model of the unrepaired buffer does not fail')
    # every way of cutting the streams into three (four) pieces
    for cfg in ['MC_segments'] + (['MC_segments_3'] if THOROUGH else []):
        r, trs = tlc.transitions('MC_segments', cfg=cfg, workers=8)
        ev.model(r, len(trs))
        rows = [v for v in trs if v['cuts']]
        table = {}
        for v in rows:
            table[id(v)] = v

        rnd = random.Random(SEED)
        rnd.shuffle(rows)
        jobs = []
        for i in range(0, len(rows), 100):
            part = rows[i:i + 100]
            it = iter(part)
            jobs.append(wire_job(len(jobs), part, lambda r, data: (next(it)['cuts'], r.choice([0, 60, 60, 250]))))
        summ = check_job('C13', dict(h, workers=8), jobs, what=cfg)
        ev.traces += len(rows)
        ev.count('cut_streams', len(rows))
        ev.count('packets_compared', summ['recv'])
        v = rows[7]
        ev.sample({'model': cfg, 'stream': bytes(v['bs']).hex(), 'cuts': v['cuts'],
                   'outputs': [[c, bytes(b).hex() if b else 'EOF'] for c, b in v['out']]})
    # one byte at a time, and changed streams cut anywhere
    rows = wire_rows(ev, 'MC_wire')
    rnd = random.Random(SEED)
    some = rnd.sample(rows, big(3000, len(rows)))
    run_streams(ev, 'C13', some, 'MC_wire', random_cuts(1.0))
    base = [v for v in rows if v['m'] == 0]
    run_streams(ev, 'C13', base * big(2, 10), 'MC_wire_bytewise',
                lambda r, data: (list(range(1, len(data))), r.choice([0, 30])), per=5)
    # packets and pieces that end around the ends of the read buffer
    r, trs = tlc.transitions('MC_buffer', cfg='MC_buffer_deep' if THOROUGH else 'MC_buffer')
    ev.model(r, len(trs))
    g = Graph([{'f': {'off': v['f']}, 't': {'off': v['t']}, 'e': v['e'], 'o': None} for v in trs], init={'off': 64})
    rnd = random.Random(SEED)
    paths, cov = g.tours(SEED, 40)
    plans = [[p] for p in paths]
    # and on new connections: the buffer is where the specification says until it first grows
    out = {}
    for k, (a, b, _, _) in enumerate(g.edges):
        out.setdefault(a, []).append(k)
    short = []
    for _ in range(big(2, 5)):
        for k in range(len(g.edges)):
            a, b, e, _ = g.edges[k]
            p = [k]
            if a != g.init:
                # there directly
                p = [rnd.choice([j for j in out[g.init] if g.edges[j][1] == a and g.edges[j][2]['size'] < 4096] or [j for j in out[g.init] if g.edges[j][1] == a]), k]
            elif rnd.random() < 0.5:
                p.append(rnd.choice(out[b]))
            short.append(p)
    rnd.shuffle(short)
    plans += [short[i:i + 20] for i in range(0, len(short), 20)]
    jobs = [buffer_job(i, [[g.edges[k][2] for k in p] for p in ps], 64) for i, ps in enumerate(plans)]
    summ = check_job('C13', dict(h, workers=8), jobs, describe=lambda i: [[g.edges[k][2] for k in p] for p in plans[i]], what='MC_buffer')
    ev.traces += summ['done']
    ev.count('packets_compared', summ['recv'])
    ev.add('buffer_positions_and_cuts', cov)
    ev.add('new_connections', len(short))
    # histories of the broker model in pieces
    broker_replay(ev, 'C13', 'MC_requests', {'pipe': 0.8, 'seg': 0.8}, h)
    broker_simulate(ev, 'C13', 'MC_big', {'pipe': 0.9, 'seg': 0.6, 'maxrun': 12, 'sizes': 'mixed'}, h, big(60, 1500), 80)
    silent.join()


# ------------------------------------------------------------------------------------ C14
HUGE = 12_000_000      # more than fits into the sockets between two processes of this machine


def slow_job(jid, steps, rcv, nap=0):
    """steps: (state before, event, outputs, state after); nap: a pause in seconds before the first catch-up with much to read"""
    sc = Script(jid, SEED, {'creds': CREDS})
    r = sc.r
    who = steps[0][3]['who']      # (a simulation may have more than one initial state)
    R, N, P = 1, 2, 3
    sc.op('o', R, 0, rcv)
    for c in (N, P):
        sc.op('o', c, 0)
    for c in (R, N, P):
        sc.send(c, wire.connect(sc.nm.client('f%d' % c)))
        sc.op('q', c, wire.connack(0).hex())
        sc.op('d', c)

    def join(c):
        sc.send(c, wire.subscribe(3, ['s/+']))
        sc.op('q', c, wire.suback(3, 1).hex())
        sc.op('d', c)
    for c in (R, N):
        join(c)
    src = R if who == 'self' else P
    sc.op('bg', src)
    reader, newest = R, 3
    k = pending = 0

    def request(c):
        x = r.choice(['ping', 'ping', 'sub', 'unsub'])
        pid = sc.packet_id()
        if x == 'ping':
            sc.op('q', c, wire.PINGRESP.hex())
            return wire.PINGREQ
        if x == 'sub':
            fs = ['q/%d' % r.randint(0, 9) for _ in range(r.choice([1, 1, 2, 5]))]
            sc.op('q', c, wire.suback(pid, len(fs)).hex())
            return wire.subscribe(pid, fs)
        sc.op('q', c, wire.unsuback(pid).hex())
        return wire.unsubscribe(pid, ['q/%d' % r.randint(0, 9)])

    def message(n, size):
        parts = []
        nonlocal k
        for _ in range(n):
            k += 1
            t = 's/%d' % k
            seed = r.getrandbits(32)
            head = wire.publish_head(t, size)
            parts.append([head.hex(), size, seed])
            for c in (reader, N):
                sc.op('G', c, head.hex(), size, seed)
        sc.op('T', src, parts, [], 0)

    for st, e, o, _ in steps:
        if e['op'] == 'burst':
            message(e['n'], e['size'])
            pending += e['n'] * e['size']
        elif e['op'] == 'fill':
            sc.op('K', reader, src, N, 's/f', e['size'], r.getrandbits(31), 20000)
            pending += HUGE
        elif e['op'] == 'stall':
            message(1, HUGE)
            sc.op('d', N)
            if e['what'] == 'msg':
                for _ in range(e['n']):
                    message(1, r.choice([0, 5, 20, 300]))
            else:
                data = b''
                for _ in range(e['n']):
                    data += request(reader)
                    if r.random() < 0.05:
                        sc.send(reader, data)
                        data = b''
                sc.send(reader, data)
            pending += HUGE
        elif e['op'] == 'takeover':
            newest += 1
            sc.op('o', newest, 0)
            sc.send(newest, wire.connect(sc.nm.client('f1')))
            sc.op('q', newest, wire.connack(0).hex())
            # (the broker may have to wait for the old connection before it can answer)
            sc.op('i', newest, 200)
            sc.op('cut', reader)
            sc.op('D', [reader, newest, N])
            sc.op('x', reader, 'fin')
            reader = newest
            if who == 'self':
                src = reader
                sc.op('bg', src)
            join(reader)
        elif e['op'] == 'leave':
            late = wire.publish_head('s/late', 3) + b'xyz'
            data = {'disc': wire.DISCONNECT, 'connect': wire.connect(sc.nm.client('f1')), 'broken': b'\xf0\x00'}[e['how']]
            sc.send(reader, data + r.choice([b'', late, wire.PINGREQ, late + wire.PINGREQ, wire.subscribe(9, ['#'])]))
            sc.op('w', r.choice([1000, 50000, 200000]))
            sc.op('cut', reader)
            sc.op('D', [reader, N])
            for c in ((N, P) if r.random() < 0.5 else (P, N)):
                sc.op('p', c)
            sc.op('x', reader, 'fin')
            # nothing of it is left, for nobody
            newest += 1
            reader = newest
            if who == 'self':
                src = reader
            sc.op('o', reader, 0)
            sc.send(reader, wire.connect(sc.nm.client('f1')))
            sc.op('q', reader, wire.connack(0).hex())
            sc.op('d', reader)
            k += 1
            m = wire.publish_head('s/%d' % k, 2) + b'ab'
            sc.send(P, m)
            sc.op('q', N, m.hex())
            sc.op('p', P)
            for c in (N, reader):
                sc.op('p', c)
            if who == 'self':
                sc.op('bg', src)
            join(reader)
        elif e['op'] == 'ping':
            sc.send(reader, wire.PINGREQ)
            sc.op('q', reader, wire.PINGRESP.hex())
        elif e['op'] == 'nibble':
            sc.op('v', reader, e['n'])
            if r.random() < 0.3:
                sc.op('w', r.choice([1000, 20000]))
        elif e['op'] == 'catchup':
            if nap and pending >= HUGE:
                sc.op('w', nap * 1000000)
                nap = 0
            # without any further traffic
            sc.op('D', [reader, N])
            pending = 0
            if r.random() < 0.3:
                sc.op('p', reader)
        if r.random() < 0.2 and k:
            sc.op('w', r.choice([500, 5000, 30000]))
    left = sorted({reader, N, P})
    sc.op('D', left)
    for c in left:
        sc.op('p', c)
    for c in left:
        sc.op('x', c, 'fin')
    sc.op('A')
    return {'id': jid, 'ops': sc.ops}


def stall_plans(ev, kind):
    """every length of a stalled reader's queue; then it reads on ("catchup") or its identifier is taken over"""
    r, trs = tlc.transitions('MC_stall')
    ev.model(r, len(trs))
    plans = []
    for who in ('self', 'other'):
        starts = [v for v in trs if v['e']['op'] == 'stall' and v['f']['who'] == who]
        for v in starts:
            if v['t']['n'] == 1 and v['e']['what'] == 'msg':
                continue
            for w in trs:
                if w['f'] == v['t'] and w['e']['op'] == kind:
                    plans.append([(v['f'], v['e'], [], v['t']), (w['f'], w['e'], [], w['t'])])
                    if kind != 'leave':
                        break
    return plans


def stalls(ev, prop, kind):
    plans = stall_plans(ev, kind)
    rnd = random.Random(SEED)
    if not THOROUGH:
        # the whole range once, with either publisher
        keep = {}
        for p in plans:
            keep.setdefault((p[0][1]['n'], p[0][1]['what']), []).append(p)
        plans = [rnd.choice(v) for v in keep.values()]
        plans += [p for n in (31, 32, 33) for x in ('reply', 'msg') for p in keep[n, x]]
    jobs = [slow_job(500000 + i, p, 0) for i, p in enumerate(plans)]
    summ = check_job(prop, {'ignore': ['flags', 'sp', 'payload'], 'passwd': passwd(), 'workers': 6}, jobs,
                     describe=lambda i: [x[1] for x in plans[i - 500000]], what='MC_stall')
    ev.traces += summ['done']
    ev.count('stalled_queues', len(plans))
    ev.sample({'model': 'MC_stall', 'behaviour': [x[1] for x in plans[0]]})


def sleeping(b):
    """what is behind the message that does not fit where slow_job sleeps"""
    pending, behind = 0, 'short'
    for st, e, o, _ in b:
        if e['op'] == 'burst':
            pending += e['n'] * e['size']
        elif e['op'] in ('fill', 'stall'):
            pending += HUGE
            behind = e['what'] if e['op'] == 'stall' and e['n'] > 60 else 'short'
        elif e['op'] == 'catchup':
            if pending >= HUGE:
                return behind
            pending = 0
    return None


@prop
def C14(ev):
    r = tlc.run('MC_writebuffer')
    ev.model(r, r.generated)
    r = tlc.run('MC_writebuffer', cfg='MC_writebuffer_before', must_pass=False)
    if 'Invariant Pushed is violated' not in r.text:
        raise ToolError('the model of the unrepaired writer does not fail')
    r, beh = tlc.simulate('MC_slow', big(120, 600), 30, SEED)
    ev.states += r.states
    ev.transitions += r.generated
    # some readers sleep for long, with full sockets: with little behind what does not fit, with messages enough to
    # fill any queue behind it, or with replies
    kinds = {}
    for i, b in enumerate(beh):
        kinds.setdefault(sleeping(b), []).append(i)
    times = [66, 61, 46, 31, 26, 21, 16, 11, 6] + big([], [610, 400, 305, 241, 181, 121, 91])
    naps = {}
    for k in ('short', 'msg', 'reply'):
        naps.update(zip(kinds.get(k, []), times))
        ev.add('sleepers_' + k, min(len(times), len(kinds.get(k, []))))
    # and these, of which there are few among the simulated behaviours, on their own
    jobs = []
    rnd = random.Random(SEED)
    plans = [p for p in stall_plans(ev, 'catchup') if p[0][1]['n'] >= 63]
    for who in ('self', 'other'):
        for k in ('msg', 'reply'):
            fit = [p for p in plans if p[0][1]['what'] == k and p[0][3]['who'] == who]
            for s in [65, 62, 47, 32, 12] + big([], [605, 302, 182, 122, 92]):
                jobs.append((s, slow_job(600000 + len(jobs), rnd.choice(fit), 0, s)))
    ev.add('sleepers_alone', len(jobs))

    def replay(which, workers):
        return check_job('C14', {'ignore': ['flags', 'sp'], 'passwd': passwd(), 'workers': workers, 'budget_s': 780},
                         [slow_job(i, beh[i], [0, 0, 131072, 0][i % 4], naps.get(i, 0)) for i in which],
                         describe=lambda i: [x[1] for x in beh[i]], what='MC_slow')

    def sleepers():
        n = replay(sorted(naps, key=lambda i: -naps[i]), len(naps))
        ev.traces += n['done']

    def alone():
        n = check_job('C14', {'ignore': ['flags', 'sp'], 'passwd': passwd(), 'workers': len(jobs), 'budget_s': 780},
                      [j for _, j in sorted(jobs, key=lambda x: -x[0])], what='MC_stall')
        ev.traces += n['done']
        ev.count('packets_compared', n['recv'])
        ev.add('longest_sleep_s', max(naps.values()))
    silent, silent2 = Alongside(sleepers), Alongside(alone)
    summ = replay([i for i in range(len(beh)) if i not in naps], 6)
    ev.traces += summ['done']
    ev.count('packets_compared', summ['recv'])
    ev.count('sockets_filled_exactly', summ['filled'])
    ev.count('bursts', sum(1 for b in beh for x in b if x[1]['op'] == 'burst'))
    ev.count('largest_backlog', max(x[3]['items'] for b in beh for x in b))
    ev.sample({'model': 'MC_slow', 'publisher': beh[0][0][3]['who'], 'behaviour': [x[1] for x in beh[0]]})
    # writes of every size around the ends of the write buffer
    r, trs = tlc.transitions('MC_buffer')
    ev.model(r, len(trs))
    g = Graph([{'f': {'off': v['f']}, 't': {'off': v['t']}, 'e': v['e'], 'o': None} for v in trs], init={'off': 64})
    paths = g.walks(SEED, big(20, 200), 60)
    jobs = [buffer_job(i, [[g.edges[k][2] for k in p]], 64) for i, p in enumerate(paths)]
    summ = check_job('C14', {'ignore': ['flags', 'sp'], 'passwd': passwd()}, jobs, what='MC_buffer')
    ev.traces += summ['done']
    ev.count('packets_compared', summ['recv'])
    silent.join()
    silent2.join()
