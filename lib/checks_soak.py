"""Long repetition, long silence, and many connections at once: what the specification says about them follows
from its data independence (a transition that leads back to its state may be repeated for ever), and counters,
caches, limits and timers of an implementation show only there."""
import random
from env import *
import tlc, wire
from conc import Script
from graph import Graph
from runner import *
from checks import *

REPEAT = 66000          # more than a 16-bit counter counts


def loops(g, ops):
    """for each of these operations the transition that leads back to its state with most outputs, and other ones"""
    best = {}
    for k, (a, b, e, o) in enumerate(g.edges):
        if a == b and e['op'] in ops and g.states[a]['ph'][e['c'] - 1] == 'up':
            best.setdefault((e['op'], len(o)), []).append(k)
    r = []
    for (op, n), ks in sorted(best.items()):
        r.append((op, n, ks))
    return r


def path_to(g, s):
    from collections import deque
    par = {g.init: None}
    q = deque([g.init])
    while q:
        x = q.popleft()
        if x == s:
            break
        for e in g.out[x]:
            t = g.edges[e][1]
            if t not in par:
                par[t] = e
                q.append(t)
    p = []
    while par[s] is not None:
        p.append(par[s])
        s = g.edges[par[s]][0]
    return p[::-1]


def steps_of(g, path):
    return [(g.states[g.edges[k][0]], g.edges[k][2], g.edges[k][3]) for k in path]


def after(g, s, rnd, n):
    """a walk from a state"""
    p = []
    while len(p) < n and g.out[s]:
        e = rnd.choice(g.out[s])
        p.append(e)
        s = g.edges[e][1]
    return p, s


def repeat_job(jid, g, k, times, opts):
    """to the state, its transition many times, and on from there"""
    sc = Script(jid, SEED, opts_for(opts))
    sc.srcport = 0
    a, _, e, outs = g.edges[k]
    c = e['c']
    sc.build(steps_of(g, path_to(g, a)))
    up = [d + 1 for d, p in enumerate(g.states[a]['ph']) if p == 'up']
    left = times
    while left:
        n = min(left, 500)
        left -= n
        data, info = sc.encode(e)
        sc.op('r', c, data.hex(), n)
        for d, o in outs:
            sc.op('Q', d, sc.decode_out(o, info).hex(), n)
        sc.op('D', up)
        sc.op('p', c)
    p, s = after(g, a, sc.r, 12)
    sc.build(steps_of(g, p))
    sc.finish({d + 1 for d, p in enumerate(g.states[s]['ph']) if p != 'off'}, g.states[s])
    return {'id': jid, 'ops': sc.ops}


def repeated(ev, prop, mod, ops, ignore, times=REPEAT):
    """transitions that lead back to their state, tens of thousands of times on one connection"""
    r, trs = tlc.transitions(mod)
    ev.model(r, len(trs))
    g = Graph(trs)
    rnd = random.Random(SEED)
    ks = [rnd.choice(x) for op, n, x in loops(g, ops) if op != 'pub' or n]
    if not THOROUGH:
        # one of every operation
        keep = {}
        for k in ks:
            keep[g.edges[k][2]['op']] = k
        ks = sorted(keep.values())
    jobs = [repeat_job(800000 + i, g, k, times * big(1, 2), {}) for i, k in enumerate(ks)]
    summ = check_job(prop, {'ignore': ignore, 'passwd': passwd(), 'workers': 4}, jobs,
                     describe=lambda i: {'repeated': g.edges[ks[i - 800000]][2], 'in': g.states[g.edges[ks[i - 800000]][0]]}, what=mod + '_repeated')
    ev.traces += summ['done']
    ev.extra.setdefault('repeated', {}).update({g.edges[k][2]['op']: times * big(1, 2) for k in ks})


def every_identifier(ev, prop, ignore):
    """every packet identifier, in SUBSCRIBE and in UNSUBSCRIBE"""
    r, trs = tlc.transitions('MC_requests')
    ev.model(r, len(trs))
    g = Graph(trs)
    w = {'sub': 8, 'unsub': 8, 'ping': 0.3, 'pub': 0.3, 'ack': 0.2, 'open': 50, 'connect': 50}
    parts = big(4, 1)
    jobs, desc = [], []
    for i in range(parts):
        rnd = random.Random('%d/%d' % (SEED, i))
        ids = list(range(1 + i * 65535 // parts, 1 + (i + 1) * 65535 // parts))
        turn = {'sub': iter(ids), 'unsub': iter(ids)}
        left = dict.fromkeys(turn, len(ids))
        s, path = g.init, []
        while max(left.values()) > 0:
            o = g.out[s]
            ws = [w.get(g.edges[x][2]['op'], 0) * (1 if left.get(g.edges[x][2]['op'], 1) > 0 else 0.01) if
                  g.states[s]['ph'][g.edges[x][2]['c'] - 1] != 'up' or g.edges[x][2]['op'] != 'connect' else 0 for x in o]
            e = rnd.choices(o, ws)[0]
            op = g.edges[e][2]['op']
            if op in left and g.states[s]['ph'][g.edges[e][2]['c'] - 1] == 'up':
                left[op] -= 1
            elif op in left:
                continue
            path.append(e)
            s = g.edges[e][1]
        sc = Script(810000 + i, SEED, opts_for({'pipe': 1.0, 'maxrun': 30}))
        enc = sc.encode

        def encode(e, enc=enc, sc=sc, turn=turn):
            sc.next_id = next(turn[e['op']], None) if e['op'] in turn else None
            return enc(e)
        sc.next_id = None
        sc.encode = encode
        old = sc.packet_id
        sc.packet_id = lambda sc=sc, old=old: sc.next_id or old()
        jobs.append(sc.job(g, path))
        desc.append(len(path))
    summ = check_job(prop, {'ignore': ignore, 'passwd': passwd(), 'workers': 4}, jobs, what='MC_requests_ids')
    ev.traces += summ['done']
    ev.add('packet_identifiers', 65535)


def wide(ev, prop, ignore, hdr=None, listeners=1, n=0, again=0, num=0, depth=0, join=False):
    """hundreds of connections at the same time"""
    n = n or big(420, 700)
    r, beh = tlc.simulate('MC_wide', num or big(1, 2), depth or big(4600, 7700), SEED, timeout=800,
                          env={'MC_N': str(n), 'MC_AGAIN': str(again), 'MC_JOIN': str(int(join))})
    ev.states += r.states
    ev.transitions += r.generated
    jobs = [Script(820000 + i, SEED, opts_for({'listeners': listeners, 'keepalive': [0, 60, 65535], 'pipe': 1.0 if again else 0.5, 'maxrun': 40 if again else 6})).job_steps([x[:3] for x in b], b[-1][3])
            for i, b in enumerate(beh)]
    h = {'ignore': ignore, 'passwd': passwd(), 'workers': 2, 'listeners': listeners}
    h.update(hdr or {})
    summ = check_job(prop, h, jobs, describe=lambda i: readable([x[:3] for x in beh[i - 820000]])[-40:], what='MC_wide')
    ev.traces += summ['done']
    ev.count('packets_compared', summ['recv'])
    ev.add('connections_at_once', max(sum(p == 'up' for p in x[3]['ph']) for b in beh for x in b))


def thousand(ev, prop, ignore):
    """more than a thousand subscribers of one filter"""
    n = big(1100, 1700)
    wide(ev, prop, ignore, n=n, again=big(5, 0), num=1, depth=3 * n + big(200, 400), join=True)


def many_filters(ev, prop, ignore, num=0, depth=0, ends=2, levels=0):
    """connections that hold hundreds of filters each, most of which match the same names"""
    r, beh = tlc.simulate('MC_many', num or big(6, 24), depth or big(300, 500), SEED, timeout=700, env={'MC_L': str(levels or big(5, 6)), 'MC_ENDS': str(ends)})
    ev.states += r.states
    ev.transitions += r.generated
    jobs = [Script(850000 + i, SEED, opts_for({'pipe': 0.5})).job_steps([x[:3] for x in b], b[-1][3]) for i, b in enumerate(beh)]
    summ = check_job(prop, {'ignore': ignore, 'workers': 2}, jobs,
                     describe=lambda i: readable([x[:3] for x in beh[i - 850000]])[-40:], what='MC_many')
    ev.traces += summ['done']
    ev.count('packets_compared', summ['recv'])
    ev.add('filters_in_one_packet', max(len(x[1]['fs']) for b in beh for x in b if 'fs' in x[1]))


def many_clients(ev, prop, ignore, sub=False):
    """a cycle of MC_takeover (open, connect, perhaps subscribe, close), tens of thousands of times beside connections that stay"""
    r, trs = tlc.transitions('MC_takeover')
    ev.model(r, len(trs))
    g = Graph(trs)
    rnd = random.Random(SEED)
    # states in which connection 3 is off and the others are up, with subscriptions
    good = [i for i, s in enumerate(g.states) if s['ph'] == ['up', 'up', 'off'] and s['subs'][0] and s['subs'][1]]
    jobs = []
    for j in range(big(2, 4)):
        a = rnd.choice(good)
        sc = Script(830000 + j, SEED, opts_for({'keepalive': [0]}))
        sc.srcport = 0
        sc.build(steps_of(g, path_to(g, a)))
        left = REPEAT
        p, s = after(g, a, sc.r, 20)
        while left:
            n = min(left, 2000)
            left -= n
            cid = '' if j % 2 == 0 else sc.nm.client('the third')
            steps = [[wire.connect(cid).hex(), [wire.connack(0).hex()]]]
            if sub:
                steps.append([wire.subscribe(5, [sc.nm.topic(['a'])]).hex(), [wire.suback(5, 1).hex()]])
            elif sc.r.random() < 0.2:
                steps.append([wire.PINGREQ.hex(), [wire.PINGRESP.hex()]])
            sc.op('cyc', n, 0, steps, sc.r.choice(['rst', 'rst', 'fin']) if n < 2000 else 'rst')
            # the others do not notice
            for c in (1, 2):
                t, pl = sc.nm.topic(['a']), sc.payload()
                sc.send(c, wire.publish(t, pl))
                for d in (1, 2):
                    sc.op('q', d, wire.publish(t, pl).hex())
                sc.op('p', c)
            sc.op('d', 1)
        sc.build(steps_of(g, p))
        sc.finish({d + 1 for d, q in enumerate(g.states[s]['ph']) if q != 'off'}, g.states[s])
        jobs.append({'id': 830000 + j, 'ops': sc.ops})
    summ = check_job(prop, {'ignore': ignore, 'passwd': passwd(), 'workers': 4}, jobs, what='MC_takeover_many')
    ev.traces += summ['done']
    ev.add('clients_one_after_the_other', REPEAT)


def visit(sc, x):
    """a situation of Crowd in a few bytes: [(what is sent, what is answered)], and how many are there at once"""
    r = sc.r
    own = 'v/%x' % sc.id
    cid = 'v%x' % sc.id
    p, a = x['p'], x['a']
    steps, overlap = [], 0
    if p == 'refused':
        u = r.choice([('nobody', 'x'), ('user', 'wrong'), ('user', None), ('', '')])
        steps.append([wire.connect('', *u), [wire.connack(5)] + ([b''] if r.random() < 0.5 else [])])
    elif p in ('up', 'sub', 'deep'):
        steps.append([wire.connect('', will=r.choice([None, ('w', b'gone', 1, 1)])), [wire.connack(0)]])
        if p != 'up':
            f = [own, 'v/+'] if p == 'sub' else ['/'.join([own] + ['x'] * 60), own + '/#']
            steps.append([wire.subscribe(7, f), [wire.suback(7, 2)]])
    elif p == 'over':
        steps.append([wire.connect('') + wire.DISCONNECT, r.choice([[], [wire.connack(0)], [wire.connack(0), b'']])])
    elif p == 'again':
        steps.append([wire.connect(cid) + wire.connect(cid), r.choice([[], [wire.connack(0)], [wire.connack(0), b'']])])
    elif p == 'taken':
        overlap = 1
        steps.append([wire.connect(cid), [wire.connack(0)]])
        if r.random() < 0.5:
            steps.append([wire.subscribe(7, [own]), [wire.suback(7, 1)]])
    b = {'partial': lambda: wire.publish(own, b'abc' * 50)[:r.randint(1, 100)], 'huge': lambda: b'\x30\xff\xff\xff\x7fxyz',
         'garbage': lambda: r.choice([b'\xf0\x00', b'GET / HTTP/1.1\r\n\r\n', b'\x00' * 10]), 'bad': sc.bad,
         'pings': lambda: wire.PINGREQ * 5, 'pubs': lambda: wire.publish('v/nobody', b'x') * 5,
         'self': lambda: wire.publish(own, b'y' * 20) * 3, 'acks': lambda: wire.ack('puback', 1),
         'subs': lambda: wire.subscribe(1, [own + '/s']) + wire.unsubscribe(2, [own]), 'bytes': lambda: b'\x10'}.get(a)
    if b:
        steps.append([b(), []])
    return [[d.hex(), [e.hex() for e in o]] for d, o in steps], overlap


def many_visits(ev, prop, n, each=1):
    """visitors of Crowd in the same situation, leaving in the same way, thousands of times on one broker"""
    from checks_sys import Crowd
    r, trs = tlc.transitions('MC_crowd')
    ev.model(r, len(trs))
    came = {v['e']['x']['p'] + '/' + v['e']['x']['a']: v['e']['x'] for v in trs if v['e']['op'] == 'come'}
    ways = sorted({v['e']['way'] for v in trs if v['e']['op'] == 'leave'})
    rnd = random.Random('%d%s' % (SEED, prop))
    by = {}
    for k in sorted(came):
        x = came[k]
        if x['a'] not in ('bigpub', 'midpub', 'conns'):
            by.setdefault(x['p'], []).append(x)
    todo = []
    for p in sorted(by):
        idle = [x for x in by[p] if x['a'] == 'idle']
        for x in (by[p] if THOROUGH else rnd.sample(by[p], each) + idle):
            todo += [(x, w) for w in (ways if THOROUGH else [rnd.choice(ways)])]
    jobs = []
    for i, (x, w) in enumerate(todo):
        c = Crowd(840000 + i, prop=prop)
        c.round()
        left = n
        while left:
            k = min(left, 250)
            left -= k
            steps, overlap = visit(c.sc, x)
            c.sc.op('cyc', k, 0, steps, 'rst' if w == 'rst' else 'fin', overlap)
            c.round(False)
        c.sc.op('F', 2)
        c.round()
        c.finish()
        c.sc.op('F', 0)
        jobs.append({'id': 840000 + i, 'ops': c.sc.ops, 'hdr': {'base': True}})
    h = {'ignore': ['flags', 'payload', 'pid', 'codes', 'sp'], 'passwd': passwd(), 'workers': 8, 'listeners': 1}
    summ = check_job(prop, h, jobs, describe=lambda i: todo[i - 840000], what='MC_crowd_many')
    ev.traces += summ['done']
    ev.add('visits_one_after_the_other', n)
    ev.add('kinds_of_visits', len(todo))
