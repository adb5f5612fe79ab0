#!/usr/bin/env python3
"""Writes the small Broker configurations spec/mc/MC_*.tla and .cfg (committed as generated)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'mc')
INV = 'INVARIANTS TypeOK UniqueOwner NothingLeft'
PROPS = ('PROPERTIES StartsEmpty OnlyAdmitted NoEffectWithoutSession OthersUntouched DeliveredExactly '
         'RepliesToRequester Idempotent EndsCompletely TakeoverExact TimeChangesNothing')


def mc(name, doc, conns, ids, creds, fs, ts, ops, own, admits='Anonymous', extra='', exhaustive=True, likely=None):
    body = '''---- MODULE %s ----
(* %s *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \\in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
%scFS == %s
cTS == %s
AllF == UNION {Range(q) : q \\in cFS}
Tab == [f \\in AllF |-> [t \\in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
%s====
''' % (name, doc, extra, fs, ts,
       'Likely(e) == LET p == s.ph[e.c] IN\n%s\nNextL == \\E e \\in Events : Likely(e) /\\ Step(e)\nSpecL == Init /\\ [][NextL]_vars\n' % likely if likely else '')
    cfg = '''SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- %s
 Conns = {%s}
 Ids = {%s}
 Creds %s
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {%s}
 OwnId = %s
 Out <- cOut
VIEW View
''' % (admits, ','.join(map(str, range(1, conns + 1))), ','.join('"%s"' % i for i in ids),
       creds if isinstance(creds, str) else '= {%s}' % ','.join('"%s"' % c for c in creds),
       ','.join('"%s"' % o for o in ops), 'TRUE' if own else 'FALSE')
    if exhaustive:
        cfg += 'ACTION_CONSTRAINT Emit\n%s\n%s\nCHECK_DEADLOCK FALSE\n' % (INV, PROPS)
    else:
        cfg += 'INVARIANTS TypeOK UniqueOwner NothingLeft EmitState\n%s\n%sCHECK_DEADLOCK FALSE\n' % (
            PROPS, '')
    if likely:
        cfg = cfg.replace('SPECIFICATION Spec', 'SPECIFICATION SpecL')
    open(os.path.join(D, name + '.tla'), 'w').write(body)
    open(os.path.join(D, name + '.cfg'), 'w').write(cfg)


ALL = ['open', 'fin', 'rst', 'half', 'connect', 'sub', 'unsub', 'pub', 'ping', 'ack', 'disc', 'bad']
mc('MC_delivery', 'C02: who receives what, over all histories of subscribe, unsubscribe, disconnect, reconnect',
   3, ['x'], ['anon'], '{<< <<"a">> >>, << <<"+">> >>, << <<"#">> , <<"a">> >>}', '{<<"a">>, <<"a","b">>}',
   ['open', 'fin', 'connect', 'sub', 'unsub', 'pub', 'disc'], True)
mc('MC_filters', 'C02: filters in one tree: nested, overlapping, with shared prefixes; two clients',
   2, ['x'], ['anon'], '{<< <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>, << <<"+","b">> >>, << <<"#">> >>}',
   '{<<"a">>, <<"a","b">>, <<"a","b","c">>}', ['open', 'connect', 'sub', 'unsub', 'pub', 'disc'], True)
mc('MC_requests', 'C06: every request gets its reply; lists of filters, also with repetitions',
   2, ['x'], ['anon'], '{<< <<"a">> >>, << <<"a">>, <<"b">> >>, << <<"b">>, <<"b">>, <<"a">> >>}', '{<<"a">>, <<"b">>}',
   ['open', 'half', 'connect', 'sub', 'unsub', 'pub', 'ping', 'ack', 'disc'], True)
mc('MC_lists', 'C06: long lists of filters (SUBACK with remaining lengths of one and two bytes)',
   1, ['x'], ['anon'], '{Many(1), Many(60), Many(125), Many(126), Many(200), Many(1000)}', '{<<"m", "7">>, <<"m", "150">>}',
   ['open', 'connect', 'sub', 'unsub', 'pub'], True, extra='Many(n) == [i \\in 1..n |-> <<"m", ToString(i)>>]\n')
mc('MC_admission', 'C07: packets before, without, and after an accepted CONNECT, also under a shared identifier',
   2, ['x', 'y'], ['anon', 'wrong'], '{<< <<"a">> >>}', '{<<"a">>}', ALL, False)
mc('MC_session', 'C09: sessions that end in every possible way, and reconnecting clients',
   3, ['x', 'y'], ['anon'], '{<< <<"a">> >>, << <<"+">> >>}', '{<<"a">>}',
   ['open', 'fin', 'rst', 'half', 'connect', 'sub', 'pub', 'disc', 'bad'], False)
mc('MC_ends', 'C09: sessions with nested filters, unsubscribed one by one, that end and come back under the same identifier',
   2, ['x', 'y'], ['anon'], '{<< <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>}', '{<<"a">>, <<"a","b">>}',
   ['open', 'rst', 'half', 'connect', 'sub', 'unsub', 'pub', 'disc', 'bad'], False)
mc('MC_takeover', 'C10: connections competing for identifiers, and generated identifiers',
   3, ['x', ''], ['anon'], '{<< <<"a">> >>}', '{<<"a">>}',
   ['open', 'fin', 'half', 'connect', 'sub', 'unsub', 'pub', 'disc'], False)
mc('MC_hostile', 'C12: every client operation, well formed or not, in any order',
   2, ['x', 'y', ''], ['anon', 'wrong'], '{<< <<"a">> >>, << <<"#">>, <<"+">> >>}', '{<<"a">>}', ALL, False)
mc('MC_invalid', 'C11: invalid topic names and malformed packets between valid ones',
   2, ['x'], ['anon'], '{<< <<"a">>, <<"#">> >>, << <<"+">> >>}',
   '{<<"a">>, <<"">>, <<"+">>, <<"#">>, <<"a","+">>, <<"a","#">>, <<"a+">>, <<"a","#b">>}',
   ['open', 'connect', 'sub', 'pub', 'bad', 'ping'], True)
BIGF = '''{<< <<"a">> >>, << <<"b">>, <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>, << <<"+","b">>, <<"+","+">> >>,
         << <<"+">> >>, << <<"#">> >>, << <<"b","b","#">> >>, << <<"","a">>, <<"a","">> >>, << <<"+","+","+">>, <<"a","+","b">> >>,
         << <<"$s">> >>, << <<"$s","a">>, <<"$s","+">> >>, << <<"a">>, <<"a","#","b">>, <<"a+">> >>}'''
BIGT = '''{<<"a">>, <<"b">>, <<"a","b">>, <<"b","a">>, <<"","a">>, <<"a","">>, <<"a","b","b">>, <<"b","b","b","a">>, <<"">>,
         <<"$s">>, <<"$s","a">>, <<"+">>, <<"c">>}'''
mc('MC_big', 'simulated, not enumerated: six connections, shared and generated identifiers, many filters, every operation',
   6, ['x', 'y', 'z', ''], ['anon', 'wrong', 'good'], BIGF, BIGT, ALL, False, exhaustive=False,
   likely="""    /\\ p = "fresh" => e.op \\notin {"sub", "unsub", "ping"} /\\ (e.op = "pub" => e.topic = <<"a">>)
    /\\ p = "up" /\\ e.op = "connect" => e.id = "x" /\\ e.cred = "anon"
    /\\ p = "dead" /\\ e.op = "connect" => e.id = "x" /\\ e.cred = "anon" """)
mc('MC_bigcalm', 'simulated, not enumerated: six connections that mostly subscribe, unsubscribe and publish',
   6, ['x'], ['anon'], BIGF, BIGT.replace('<<"">>,', '').replace('<<"+">>, ', ''),
   ['open', 'fin', 'connect', 'sub', 'unsub', 'pub', 'disc'], True, exhaustive=False,
   likely="""    /\\ p = "fresh" => e.op = "connect"
    /\\ p = "up" => e.op # "connect"
    /\\ p = "dead" => e.op = "fin" """)
mc('MC_idle', 'simulated, not enumerated: connections that are left alone for long between anything they do',
   4, ['x', 'y', ''], ['anon'], '{<< <<"a">> >>, << <<"b">>, <<"+">> >>}', '{<<"a">>, <<"b">>}',
   ['open', 'fin', 'half', 'connect', 'sub', 'unsub', 'pub', 'ping', 'disc', 'wait'], False, exhaustive=False,
   likely="""    /\\ p = "off" => e.op = "open"
    /\\ p = "fresh" => e.op \\in {"connect", "wait"}
    /\\ p = "up" => e.op # "connect" /\\ (e.op \\in {"fin", "half", "disc"} => e.c = 1)
    /\\ p = "dead" => e.op = "fin" """)

# ------------------------------------------------------------------ Wire: streams to be mutated
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import wire as w
C = w.connect('k1', clean=True, keepalive=60)
S = w.publish('s', b'!') + w.PINGREQ
ALL_BASES = [
    ('minimal CONNECT', b'', C, S),
    ('CONNECT with everything', b'', w.connect('k2', 'user', 'secret', clean=False, keepalive=10, will=('w/t', b'bye', 1, 1)), S),
    ('CONNECT with an empty identifier', b'', w.connect('', 'user', 'secret', clean=True), S),
    ('CONNECT with a will', b'', w.connect('k3', clean=True, will=('w', b'\x00\xff', 2, 0)), S),
    ('CONNECT refused', b'', w.connect('k4', 'user', 'wrong'), S),
    ('PUBLISH QoS 0', C, w.publish('a/b', b'hey'), S),
    ('PUBLISH without payload', C, w.publish('ab', b''), S),
    ('PUBLISH QoS 1', C, w.publish('a/b', b'hi', qos=1, pid=258), S),
    ('PUBLISH QoS 2 with all flags', C, w.publish('$x', b'hi', qos=2, pid=1, dup=1, retain=1), S),
    ('PUBLISH with all kinds of characters', C, w.publish('é日/😀', b'\xff\x00'), S),
    ('PUBLISH with two bytes of length', C, w.publish('t', b'x' * 130), S),
    ('SUBSCRIBE', C, w.subscribe(300, ['a', '+/b'], [0, 1]) + w.publish('a', b'1') + w.publish('x/b', b'2'), S),
    ('SUBSCRIBE QoS 2', C, w.subscribe(1, ['#'], [2]), S),
    ('SUBSCRIBE with all kinds of characters', C, w.subscribe(5, ['ß€𝄞']), S),
    ('UNSUBSCRIBE', C + w.subscribe(2, ['a', 'b']), w.unsubscribe(770, ['a', 'cc']) + w.publish('a', b'1') + w.publish('b', b'2'), S),
    ('acknowledgements', C, b''.join(w.ack(k, 515) for k in ('puback', 'pubrec', 'pubrel', 'pubcomp')), S),
    ('PINGREQ, DISCONNECT', C, w.PINGREQ + w.DISCONNECT, S),
    ('PUBLISH first', b'', w.publish('a', b'x'), C + S),
    ('second CONNECT', C, w.connect('k5'), S),
]
tup = lambda b: '<<%s>>' % ', '.join(map(str, b))
rows = ['  [lo |-> %d, hi |-> %d, bs |-> %s]    \\* %s' % (len(a) + 1, len(a) + len(b), tup(a + b + c), n) for n, a, b, c in ALL_BASES]
rows = [r.replace(']    \\*', ('],' if i < len(rows) - 1 else ']') + '    \\*') for i, r in enumerate(rows)]
open(os.path.join(D, 'WireBases.tla'), 'w').write(
    '---- MODULE WireBases ----\n(* well-formed streams; bytes lo..hi are the ones to be changed (written by tools/gen_mc.py) *)\n'
    'EXTENDS Sequences\nBases == <<\n%s\n>>\n====\n' % '\n'.join(rows))
