"""From behaviours of the specification to scripts for the driver.

The specification is data independent: it never looks inside a plain topic level, a client
identifier, a payload or a packet identifier, only compares them.  So every behaviour stands for
all behaviours in which these are replaced injectively, and each script uses another replacement
(and other values for everything the specification does not mention at all: QoS and flags of
publishers, requested QoS, keep-alive, clean session, will messages)."""
import random
import wire

UNI = ['ü', 'é', '日', '本', 'ß', 'Ω', '😀', 'ж', '中', 'ñ']
ASC = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.:;,!?$&%=()[]{}<>|~^*@\'"\\'


# what may be put before or behind a word so that it looks the same
MARKS = ['', ' ', '\t', '\r', '\n', '\u00a0', '\ufeff', '\u200b', '\u0301', '.', '  ', '\u3000', '\x7f', '\\', '"', "'"]


class Namer:
    def __init__(self, rnd, uniq):
        self.r = rnd
        self.uniq = uniq
        self.levels = {}
        self.used = set()
        self.ids = {}
        self.style = rnd.choice(['plain', 'short', 'case', 'prefix', 'uni', 'long', 'mixed', 'punct', 'twin', 'twin'])
        self.idstyle = rnd.choice(['tag', 'tag', 'case', 'prefix', 'space', 'uni', 'long', 'blank', 'twin'])
        self.twin = ''.join(rnd.choice(ASC[:52]) for _ in range(rnd.randint(1, 3)))

    def _fresh_level(self):
        r = self.r
        for _ in range(20):
            st = self.style
            if st == 'mixed':
                st = r.choice(['plain', 'short', 'case', 'prefix', 'uni', 'punct', 'twin'])
            if st == 'plain':
                s = ''.join(r.choice(ASC[:52]) for _ in range(r.randint(1, 8)))
            elif st == 'short':
                s = r.choice(ASC[:62])
            elif st == 'case':
                s = ''.join(r.choice('aA') for _ in range(r.randint(1, 4)))
            elif st == 'prefix':
                s = 'ab' * r.randint(0, 4) + r.choice(['a', 'ab', 'b'])
            elif st == 'uni':
                s = ''.join(r.choice(UNI) for _ in range(r.randint(1, 5)))
            elif st == 'twin':
                s = r.choice(['', '', r.choice(MARKS)]) + self.twin + r.choice(['', r.choice(MARKS), r.choice(MARKS)])
            elif st == 'punct':
                s = ''.join(r.choice(ASC) for _ in range(r.randint(1, 6)))
            else:
                s = 'x' * r.choice([100, 126, 127, 128, 200, 1000]) + str(r.randint(0, 9999))
            if s and s[0] != '$' and s not in self.used:
                self.used.add(s)
                return s
        while True:
            s = 'n%x' % r.getrandbits(40)
            if s not in self.used:
                self.used.add(s)
                return s

    def plain(self, l):
        if l not in self.levels:
            self.levels[l] = self._fresh_level()
        return self.levels[l]

    def level(self, l):
        if l in ('', '+', '#'):
            return l
        if l[0] == '$':      # the bare sign and the names brokers like to treat specially are levels as well
            if l not in self.levels:
                self.levels[l] = self.r.choice(['$', '$SYS', '$$', '$' + self._fresh_level(), '$' + self._fresh_level()])
            return self.levels[l]
        out, word = '', ''
        for ch in l + '\0':
            if ch in '+#\0':
                if word:
                    out += self.plain(word)
                    word = ''
                if ch != '\0':
                    out += ch
            else:
                word += ch
        return out

    def topic(self, t):
        return '/'.join(self.level(l) for l in t)

    def _client(self, i):
        """identifiers that are easily confused with each other (and with those of no other script)"""
        r, u, st = self.r, self.uniq, self.idstyle
        if st == 'case':
            return u + ''.join(r.choice('aA') for _ in range(2))
        if st == 'prefix':
            return u + 'ab' * r.randint(0, 2) + r.choice(['', 'a'])
        if st == 'space':
            return r.choice(['', ' ', '\t']) + u + r.choice(['', ' ', '/', '#', '.'])
        if st == 'uni':
            return u + r.choice(['é', 'e\u0301', 'É', 'e', 'ß', 'ss', 'k', '\u212a', 'i', 'ı', 'İ'])
        if st == 'long':
            return u + 'x' * r.choice([22, 23, 24, 100, 255, 256, 300]) + r.choice(['', 'y', 'z'])
        if st == 'blank':
            return ''.join(' \t'[ord(ch) >> k & 1] for ch in u for k in range(7)) + ' ' * r.randint(0, 4)
        if st == 'twin':
            return r.choice(['', r.choice(MARKS)]) + u + r.choice(['', r.choice(MARKS)])
        k = r.randint(0, 3)
        s = '%s%s' % (u, i)
        if k == 1:
            s += r.choice(UNI) * r.randint(1, 3)
        elif k == 2:
            s = s + '/' + r.choice(['#', '+', 'x'])
        elif k == 3:
            s += 'y' * r.choice([1, 10, 23, 100])
        return s

    def client(self, i):
        if i == '':
            return ''
        if i not in self.ids:
            r = self.r
            for _ in range(30):
                s = self._client(i)
                if s not in self.ids.values():
                    break
            else:
                s = '%s%s' % (self.uniq, i)
            self.ids[i] = s
        return self.ids[i]


class Script:
    """one behaviour as driver operations"""

    def __init__(self, pid, seed, opts=None):
        self.o = opts or {}
        self.id = pid
        self.r = random.Random('%s/%s' % (seed, pid))
        self.nm = Namer(self.r, 'c%x_%x_' % (seed % 65536, pid))
        self.ops = []
        self.cnt = 0
        self.pend = {}          # pipelined bytes
        self.nlist = self.o.get('listeners', 1)
        self.hot = None
        self.srcport = self.r.randint(11000, 30000) if self.r.random() < 0.3 else 0
        self.nopen = 0
        self.idle = list(self.o.get('idle', []))     # the pauses of this script, in seconds

    # ---- values
    def packet_id(self):
        r = self.r
        return r.choice([1, 2, 127, 128, 255, 256, 257, 32768, 65535, r.randint(1, 65535), r.randint(1, 65535)])

    def payload(self):
        self.cnt += 1
        r = self.r
        tag = b'%x.%x.' % (self.id, self.cnt)
        prof = self.o.get('sizes', 'small')
        if r.random() < 0.05:
            return r.choice([b'', b'', b' ', b'\0'])
        if prof == 'small':
            return tag + bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 5, 20, 100])))
        n = r.choice([0, 1, 50, 100, 110, 120, 127, 128, 1000, 4080, 4090, 4096, 4100, 5000, 8192, 16370, 16384, 20000])
        return tag + bytes(r.getrandbits(8) for _ in range(n))

    def will(self):
        r = self.r
        if r.random() < 0.6:
            return None
        return (self.nm.topic(['w']), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 10, 300]))), r.randint(0, 2), r.randint(0, 1))

    def creds(self, k):
        table = self.o.get('creds', {'anon': (None, None)})
        return table[k]

    def encode(self, e):
        """the bytes for an event, and what replies to it need"""
        r, op = self.r, e['op']
        if op == 'connect':
            u, p = self.creds(e['cred'])
            cid = self.nm.client(e['id'])
            return wire.connect(cid, u, p, clean=(cid == '' or r.random() < 0.5), keepalive=r.choice(self.o.get('keepalive', [0, 1, 10, 60, 65535])),
                                will=self.will()), {}
        if op == 'sub':
            pid = self.packet_id()
            fs = self.decoys([self.nm.topic(f) for f in e['fs']])
            return wire.subscribe(pid, fs, [r.randint(0, 2) for _ in fs]), {'pid': pid, 'more': len(fs) - len(e['fs'])}
        if op == 'unsub':
            pid = self.packet_id()
            return wire.unsubscribe(pid, self.decoys([self.nm.topic(f) for f in e['fs']])), {'pid': pid}
        if op == 'pub':
            pl = self.payload()
            t = self.nm.topic(e['topic'])
            q = r.choice([0, 0, 1, 2])
            return wire.publish(t, pl, qos=q, pid=self.packet_id(), dup=r.randint(0, 1) if q else 0, retain=r.randint(0, 1)), \
                {'topic': t, 'pl': pl}
        if op == 'ping':
            return wire.PINGREQ, {}
        if op == 'disc':
            return wire.DISCONNECT, {}
        if op == 'ack':
            return wire.ack(r.choice(['puback', 'pubrec', 'pubrel', 'pubcomp']), self.packet_id()), {}
        if op == 'bad':
            return self.bad(), {}
        raise AssertionError(op)

    def decoys(self, fs):
        """the filters and sometimes many others that match nothing"""
        r = self.r
        if r.random() > 0.08:
            return fs
        n = r.choice([1, 2, 8, 15, 16, 17, 31, 33, 64, 130])
        return [self.nm.uniq + 'none/%d' % (k % 97) for k in range(n)] + fs

    def bad(self):
        """a packet no server may receive"""
        r = self.r
        t = self.nm.topic(['q', 'w'])
        c = [b'\x00\x00', b'\xf0\x00', b'\x20\x02\x00\x00', b'\x90\x03\x00\x01\x00', b'\xb0\x02\x00\x01', b'\xd0\x00',
             b'\xc0\xff\xff\xff\xff\x01', b'\x30\x80\x80\x80\x80\x01',
             wire.packet(0x36, wire.mstr(t) + b'\x00\x01x'),
             wire.packet(0x82, b'\x00\x01'), wire.packet(0xa2, b'\x00\x01'),
             wire.packet(0x80, b'\x00\x01' + wire.mstr(t) + b'\x00'),
             wire.packet(0xa0, b'\x00\x01' + wire.mstr(t)),
             wire.packet(0x30, b'\x00\x03a'), wire.packet(0x30, b'\x00'),
             wire.packet(0x30, wire.mstr(b'\xff\xfe')), wire.packet(0x82, b'\x00\x01' + wire.mstr(b'\xc3') + b'\x00'),
             wire.packet(0x82, b'\x00\x01' + wire.mstr(t)),
             wire.packet(0x82, b'\x00\x01' + wire.mstr(t) + b'\x03'),
             wire.packet(0xc0, b'\x00'), wire.packet(0xe0, b'\x00')]
        return r.choice(c)

    def decode_out(self, o, info):
        t = o['t']
        if t == 'connack':
            return wire.connack(o['code'])
        if t == 'suback':
            return wire.suback(info['pid'], o['n'] + info.get('more', 0))
        if t == 'unsuback':
            return wire.unsuback(info['pid'])
        if t == 'pingresp':
            return wire.PINGRESP
        if t == 'msg':
            return wire.publish(info['topic'], info['pl'])
        raise AssertionError(t)

    # ---- operations
    def op(self, *a):
        self.ops.append(list(a))

    def expect(self, outs, info):
        """expected outputs; returns the connections that get EOF"""
        eofs = []
        for c, o in outs:
            if o['t'] == 'eof':
                self.op('z', c)
                eofs.append(c)
            else:
                self.op('q', c, self.decode_out(o, info).hex())
        return eofs

    def send(self, c, data):
        if data:
            self.op('s', c, data.hex())

    def build(self, steps):
        """steps: list of (state before, event, outputs)"""
        r = self.r
        pipe = self.o.get('pipe', 0.5)
        i = 0
        up = set()
        openc = set()
        while i < len(steps):
            st, e, outs = steps[i]
            op, c = e['op'], e.get('c')
            ph = st['ph'][c - 1]
            if op == 'open':
                l = e.get('l', c - 1)
                if self.srcport:
                    # as from several hosts behind which ports are equal
                    self.nopen += 1
                    self.op('o', c, l % max(1, self.nlist), 0, '127.%d.%d.%d:%d' % (
                        30 + self.id % 200, self.r.randint(0, 255), 1 + self.nopen % 250, self.srcport))
                else:
                    self.op('o', c, l % max(1, self.nlist))
                openc.add(c)
                i += 1
                continue
            if op == 'wait':
                self.op('w', int(self.idle.pop() * 1000000) if self.idle else 300)
                i += 1
                continue
            if op in ('fin', 'rst'):
                if ph == 'up':
                    self.op('p', c)
                self.op('x', c, op)
                openc.discard(c)
                i += 1
                continue
            if op == 'half':
                self.expect(outs, {})
                self.op('x', c, 'half')
                self.op('d', c)
                self.op('x', c, 'fin')
                openc.discard(c)
                i += 1
                continue
            # a run of packets of one connection, sent at once
            run = []
            j = i
            maxrun = 1 if r.random() > pipe else self.o.get('maxrun', 6)
            while j < len(steps) and len(run) < maxrun:
                s2, e2, o2 = steps[j]
                if e2.get('c') != c or e2['op'] in ('open', 'fin', 'rst', 'half', 'wait'):
                    break
                run.append((s2, e2, o2))
                j += 1
            data = b''
            exps = []
            for s2, e2, o2 in run:
                b, info = self.encode(e2)
                data += b
                exps.append((o2, info))
            last_st = run[-1][0]['ph'][c - 1]
            last_op = run[-1][1]['op']
            with_half = (j < len(steps) and steps[j][1]['op'] == 'half' and steps[j][1]['c'] == c and r.random() < 0.5)
            self.deliver(c, data)
            others = set()
            mine_eof = False
            mine_any = False
            for outs2, info in exps:
                for cc in self.expect(outs2, info):
                    if cc == c:
                        mine_eof = True
                    else:
                        others.add(cc)
                mine_any = mine_any or any(cc == c for cc, _ in outs2)
            i = j
            if with_half:
                self.expect(steps[j][2], {})
                self.op('x', c, 'half')
                self.op('d', c)
                self.op('x', c, 'fin')
                openc.discard(c)
                i = j + 1
            elif mine_eof:
                self.op('d', c)
            elif last_st == 'dead' or (last_st == 'fresh' and last_op != 'connect'):
                self.op('w', self.o.get('deadwait', 400))
            elif exps[-1][0] and exps[-1][0][-1][0] == c and last_op in ('connect', 'sub', 'unsub', 'ping'):
                self.op('d', c)
            else:
                self.op('p', c)
            for cc in sorted(others):
                self.op('d', cc)
        return openc

    def deliver(self, c, data):
        seg = self.o.get('seg', 0)
        r = self.r
        if self.idle and len(data) > 1 and r.random() < self.o.get('idlecut', 0):
            # a pause in the middle
            self.op('t', c, data.hex(), [r.randrange(1, len(data))], int(self.idle.pop() * 1000000))
            return
        if seg and len(data) > 1 and r.random() < seg:
            k = r.choice([1, 1, 2, 3, len(data) - 1 if len(data) < 40 else 5])
            cuts = sorted(r.sample(range(1, len(data)), min(k, len(data) - 1)))
            self.op('t', c, data.hex(), cuts, r.choice([0, 200, 500]))
        else:
            self.send(c, data)

    def finish(self, openc, last_state):
        """everything expected has arrived and nothing else has"""
        for c in sorted(openc):
            if last_state['ph'][c - 1] == 'up':
                self.op('p', c)
        for c in sorted(openc):
            if last_state['ph'][c - 1] == 'up':
                self.op('p', c)
        for c in sorted(openc):
            if last_state['ph'][c - 1] == 'dead':
                self.op('z', c)
                self.op('d', c)
            k = self.r.choice(['fin', 'fin', 'rst'])
            self.op('x', c, k)
        self.op('A')

    def job(self, g, path):
        steps = [(g.states[g.edges[k][0]], g.edges[k][2], g.edges[k][3]) for k in path]
        return self.job_steps(steps, g.states[g.edges[path[-1]][1]])

    def job_steps(self, steps, last):
        openc = self.build(steps)
        self.finish(openc, last)
        return {'id': self.id, 'ops': self.ops}
