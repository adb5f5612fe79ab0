"""C17, C18: what a broker makes of its settings, and whether it starts completely or not at all."""
import concurrent.futures, json, os, random, select, socket, struct, subprocess, threading, time
from env import *
import tlc, wire
from runner import *
from checks import prop, big, Entries

UNSET = ['unset']
LIMIT = 30.0            # seconds a start (or its failure) may take
CONNECT = wire.connect('', keepalive=0)
USERS = {'A': ('anna', 'pw-a'), 'B': ('berta', 'pw-b'), 'C': ('carl', 'pw-c')}
COMMON = 'dora'         # in every file, with another password in each


class Bad(Exception):
    pass


class Case:
    """one configuration, on addresses of its own"""

    def __init__(self, n, row, rnd, ents, stop):
        self.n, self.row, self.r, self.ents, self.stop = n, row, rnd, ents, stop
        self.c = row['c']
        self.dir = os.path.join(scratch(), 'start%d' % n)
        self.work = os.path.join(self.dir, 'work')
        os.makedirs(self.work)
        self.net = '127.%d.%d' % (20 + n // 250 % 200, 1 + n % 250)
        self.held = []
        self.notes = []
        self.addr = {}
        ports = rnd.sample(range(10000, 30000), 12)
        for i in range(1, 10):
            self.addr['p%d' % i] = '%s.1:%d' % (self.net, ports[i])
        self.addr['i1'] = '%s.2:%d' % (self.net, ports[1])
        self.addr['busy'] = '%s.3:%d' % (self.net, ports[10])
        self.addr['foreign'] = '192.0.2.1:%d' % ports[1]
        self.addr['nonsense'] = rnd.choice(['not an address', ':', '127.0.0.1:port', '/tmp/x', '[::1', 'x'])
        self.addr['noport'] = rnd.choice(['%s.1' % self.net, '%s.1:' % self.net, 'localhost'])
        self.addr['blank'] = ''         # set, to nothing
        self.addr['bigport'] = '%s.1:%d' % (self.net, rnd.choice([65536, 99999, 1000000]))
        used = [a for s in self.c['lis'].values() if s != UNSET for a in s]
        if 'six' in used:
            self.addr['six'] = '[::1]:%d' % self.free('::1', socket.AF_INET6)
        if 'name' in used:
            self.addr['name'] = 'localhost:%d' % self.free('127.0.0.1', socket.AF_INET)
        if 'busy' in used:
            s = socket.socket()
            h, p = self.addr['busy'].rsplit(':', 1)
            s.bind((h, int(p)))
            s.listen(1)
            self.held.append(s)
        self.passwords()
        self.sources()

    def free(self, host, fam):
        while True:
            p = self.r.randrange(10000, 30000)
            s = socket.socket(fam)
            try:
                s.bind((host, p))
                return p
            except OSError:
                pass
            finally:
                s.close()

    # --- the files
    def passwords(self):
        self.pwfile = {}
        for k, (u, p) in USERS.items():
            self.pwfile[k] = self.put('pw' + k, ''.join(self.ents.get(*x) for x in [(u, p), (COMMON, 'of ' + k)]))
        good = self.ents.get(*USERS['A'])
        self.pwfile['empty'] = self.put('pwempty', '')
        self.pwfile['badfirst'] = self.put('pwbad1', self.r.choice(['no entry\n', '# users\n', '\n', '\t\n']) + good)
        self.pwfile['badlast'] = self.put('pwbad2', good + self.r.choice(['no entry\n', 'no entry', 'x', '# later\n', '\n', '  ']))
        self.pwfile['badmiddle'] = self.put('pwbad3', good + self.r.choice(['noentry\n', '#\n', '\n', '\r\n', ' \n']) + self.ents.get(*USERS['B']))
        self.pwfile['notutf8'] = self.put('pwbad4', good.encode() + b'\xff\xfe:' + good.encode())
        self.pwfile['directory'] = os.path.join(self.dir, 'pwdir')
        os.makedirs(self.pwfile['directory'])
        self.pwfile['missing'] = os.path.join(self.dir, self.r.choice(['nothing', 'no/thing']))

    def put(self, name, text):
        f = os.path.join(self.dir, name)
        with open(f, 'wb') as fh:
            fh.write(text if isinstance(text, bytes) else text.encode())
        return f

    def pw(self, k):
        if k[0] == 'blank':
            return ''
        f = self.pwfile[k[0]]
        return os.path.relpath(f, self.work) if self.r.random() < 0.3 else f

    def envvars(self, src):
        v = {}
        if self.c['lis'][src] != UNSET:
            v['RATELMQ_MQTT__LISTENERS_TCP'] = ','.join(self.addr[a] for a in self.c['lis'][src])
        if self.c['pw'][src] != UNSET:
            v['RATELMQ_AUTHENTICATION__PASSWORD_FILE'] = self.pw(self.c['pw'][src])
        return v

    def sources(self):
        r, c = self.r, self.c
        self.env = {k: v for k, v in os.environ.items()
                    if not k.upper().startswith('RATELMQ_') and k not in ('RUST_BACKTRACE', 'RUST_LOG')}
        self.env['TOKIO_WORKER_THREADS'] = str(r.choice([1, 2, 4]))
        self.env.update(self.envvars('env'))
        lib = slow_lib()
        if lib and r.random() < (0.1 if self.row['st'] == 'up' else 0.6):
            f = self.pwfile.get(next((c['pw'][s][0] for s in ('env', 'dotenv', 'file') if c['pw'][s] != UNSET), ''), '')
            self.env.update(LD_PRELOAD=lib, SLOW_MS=str(r.choice([20, 60, 150])), SLOW_FILE=os.path.basename(f))
        dot = list(self.envvars('dotenv').items())
        if dot or r.random() < 0.2:
            r.shuffle(dot)
            q = r.choice(['', '"', "'"])
            text = ''.join('%s%s=%s%s%s\n' % (r.choice(['', 'export ']), k, q, v, q) for k, v in dot)
            text = r.choice(['', '# settings\n']) + text + r.choice(['', 'OTHER_PROGRAM=1\n'])
            with open(os.path.join(self.work if c['where'] == 'cwd' else self.dir, '.env'), 'w') as fh:
                fh.write(text)
        # the configuration file
        lis = None if c['lis']['file'] == UNSET else [self.addr[a] for a in c['lis']['file']]
        pw = None if c['pw']['file'] == UNSET else self.pw(c['pw']['file'])
        how = c['file']
        m = ['listeners_tcp = [%s]' % ', '.join(json.dumps(a) for a in lis)] if lis is not None else []
        a = ['password_file = %s' % json.dumps(pw)] if pw is not None else []
        if how == 'nosection':
            if r.random() < 0.5:
                m = None
            else:
                a = None
        elif how == 'nokey':
            if r.random() < 0.5:
                m = []
            else:
                a = []
        elif how == 'wrongtype':
            k = r.randrange(5)
            if k == 0:
                m = ['listeners_tcp = { first = %s }' % json.dumps(lis[0])]
            elif k == 1:
                a = ['password_file = [%s]' % json.dumps(pw)]
            elif k == 2:
                m = ['listeners_tcp = [[%s]]' % json.dumps(lis[0])]
            elif k == 3:
                a = ['[authentication.password_file]', 'name = %s' % json.dumps(pw)]
            else:
                m = ['listeners_tcp = 1883']
        secs = []
        if m is not None and (m or how == 'nokey' or r.random() < 0.5):
            secs.append('[mqtt]\n' + ''.join(x + '\n' for x in m))
        if a is not None and (a or how == 'nokey' or r.random() < 0.5):
            secs.append('[authentication]\n' + ''.join(x + '\n' for x in a))
        if r.random() < 0.5:
            secs.reverse()
        text = r.choice(['', '\n', '# comment\n']).join(secs)
        if how == 'notoml':
            text = r.choice(['<settings/>\n', text + 'listeners_tcp == 1\n', '{"mqtt": {}}\n', text + '[mqtt\n', '\x00\x01'])
        if how == 'truncated':
            i = text.index('[' if lis is None else 'listeners_tcp')
            text = text[:i + r.randrange(3, 12)]
        name = r.choice(['c.toml', 'c.conf', 'c', 'my settings.toml', 'c.d.toml'])
        f = os.path.join(self.work, name)
        if how == 'missing':
            f = r.choice([f, os.path.join(self.work, 'no', 'file')])
        elif how == 'directory':
            os.makedirs(f)
        else:
            with open(f, 'w') as fh:
                fh.write(text)
            if r.random() < 0.5 and name == 'c':
                with open(f + '.toml', 'w') as fh:      # another file that is not the named one
                    fh.write('[mqtt]\nlisteners_tcp = ["192.0.2.1:1"]\n[authentication]\npassword_file = "nothing"\n')
        p = r.choice([f, os.path.relpath(f, self.work), './' + os.path.relpath(f, self.work)])
        self.args = r.choice([['-c', p], ['--config', p], ['--config=' + p], ['-c' + p]])
        self.text = text

    # --- the broker
    def target(self, a):
        h, p = self.addr[a].rsplit(':', 1)
        return h.strip('[]'), int(p)

    def connect(self, a):
        h, p = self.target(a)
        s = socket.socket(socket.AF_INET6 if ':' in h else socket.AF_INET)
        s.settimeout(5)
        try:
            s.connect(('127.0.0.1' if h == 'localhost' else h, p))
        except OSError:
            s.close()
            if h == 'localhost':
                s = socket.socket(socket.AF_INET6)
                s.settimeout(5)
                try:
                    s.connect(('::1', p))
                    return s
                except OSError:
                    s.close()
            return None
        return s

    def answer(self, a, pkt=CONNECT, n=4, timeout=10):
        """what a listener answers: bytes, or None if there is no connection"""
        s = self.connect(a)
        if s is None:
            return None
        s.settimeout(timeout)
        got = b''
        try:
            s.sendall(pkt)
            while len(got) < n:
                x = s.recv(100)
                if not x:
                    break
                got += x
        except OSError:
            pass
        finally:
            if self.r.random() < 0.3:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            s.close()
        return got

    def run(self):
        err = open(os.path.join(self.dir, 'stderr'), 'w+')
        d, _ = bins()
        self.p = subprocess.Popen([os.path.join(d, 'ratelmq')] + self.args, cwd=self.work, env=self.env,
                                  stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL)
        try:
            if self.row['st'] == 'up':
                self.up()
            else:
                self.failed()
        except Bad as e:
            err.seek(0)
            self.bad = str(e)
            self.stderr = err.read()[-600:]
            return self
        finally:
            self.p.kill()
            self.p.wait()
            err.close()
            for s in self.held:
                s.close()
        self.bad = None
        return self

    def usable(self):
        """addresses of any source on which a listener could be"""
        r = []
        for s in self.c['lis'].values():
            if s != UNSET:
                r += [a for a in s if a[0] in 'pis' or a == 'name']
        return sorted(set(r))

    def failed(self):
        """clients try to connect all the time, until the process has ended"""
        t0 = time.time()
        socks = []
        addrs = self.usable()
        while self.p.poll() is None:
            if time.time() - t0 > LIMIT:
                served = self.bytes(socks)
                raise Bad('the broker cannot start completely but is still running after %d s%s' %
                          (LIMIT, ', and has served a client' if served else ''))
            for a in addrs:
                if len(socks) < 400:
                    s = self.connect(a)
                    if s is not None:
                        try:
                            s.sendall(CONNECT + wire.PINGREQ)
                            socks.append(s)
                        except OSError:
                            s.close()
            time.sleep(0.0005)
        got = self.bytes(socks)
        if got:
            raise Bad('a client was served (%s) by a broker whose start failed' % got.hex())
        if self.p.returncode == 0:
            raise Bad('the broker cannot start completely but ended with status 0')

    def bytes(self, socks):
        got = b''
        for s in socks:
            s.setblocking(False)
            try:
                got += s.recv(100)
            except OSError:
                pass
            s.close()
        return got

    def alive(self):
        if self.p.poll() is not None:
            raise Bad('the broker ended (status %s) although its settings are usable' % self.p.returncode)

    def up(self):
        t0 = time.time()
        for a in self.row['bound']:
            while True:
                self.alive()
                x = self.answer(a)
                if x == wire.connack(0):
                    break
                if x:
                    raise Bad('listener %s answered %s' % (self.addr[a], x.hex()))
                if time.time() - t0 > LIMIT:
                    raise Bad('listener %s (%s) is not up after %d s' % (a, self.addr[a], LIMIT))
                time.sleep(0.003)
        # the effective password file, and no other
        eff = self.row['pw']
        tries = [(u, p, k == eff) for k, (u, p) in USERS.items()] + [(COMMON, 'of ' + k, k == eff) for k in USERS]
        self.r.shuffle(tries)
        for u, p, ok in tries[:4] if eff == 'empty' else tries:
            a = self.r.choice(self.row['bound'])
            x = self.answer(a, wire.connect('', u, p))
            if x != wire.connack(0 if ok else 5):
                raise Bad('the password file should be %s (%s), but %s was answered %s' %
                          (eff, self.pwfile[eff], u, x.hex() if x is not None else 'nothing'))
        for k in range(3):
            for a in self.row['bound']:
                x = self.answer(a)
                if x != wire.connack(0):
                    raise Bad('listener %s (%s) has not stayed up: %s' % (a, self.addr[a], x.hex() if x is not None else 'no connection'))
            self.alive()
            time.sleep(0.01)
        for a in self.usable():
            if a not in self.row['bound'] and self.answer(a, timeout=1) is not None:
                raise Bad('a listener is up on %s (%s), which is not in the effective settings' % (a, self.addr[a]))


def pick(rows, n, rnd, key):
    """n of the rows, every class of key as evenly as possible"""
    if n >= len(rows):
        return list(rows)
    cl = {}
    rows = list(rows)
    rnd.shuffle(rows)
    for v in rows:
        cl.setdefault(key(v), []).append(v)
    out = []
    while len(out) < n:
        for k in sorted(cl):
            if cl[k] and len(out) < n:
                out.append(cl[k].pop())
    return out


def startups(ev, prop, plan):
    """plan: list of (configuration of MC_startup, number of cases, repetitions)"""
    rnd = random.Random(SEED * 7919 + (17 if prop == 'C17' else 18))
    rows = []
    for cfg, n, key, reps in plan:
        f = os.path.join(scratch(), cfg)
        open(f, 'w').close()
        r = tlc.run('MC_startup', cfg=cfg, env={'MC_OUT': f}, workers=4)
        with open(f) as fh:
            all_ = [json.loads(json.loads(x)) for x in fh]
        all_.sort(key=lambda v: json.dumps(v, sort_keys=True))
        ev.model(r)
        for k in range(reps):
            rows += pick(all_, n, rnd, key)
    rnd.shuffle(rows)
    slow_lib()
    ents = Entries()
    ents.prepare([x for x in USERS.values()] + [(COMMON, 'of ' + k) for k in USERS])
    stop = threading.Event()
    bins()
    seeds = [rnd.getrandbits(60) for _ in rows]

    def one(i):
        if stop.is_set():
            return None
        c = Case(i, rows[i], random.Random(seeds[i]), ents, stop).run()
        if c.bad:
            stop.set()
        return c
    up = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c in ex.map(one, range(len(rows))):
            if c is None:
                continue
            if c.bad:
                f = replay_file(prop, 'start-%d' % c.n, {
                    'property': prop, 'configuration': c.row, 'arguments': c.args, 'config_file': c.text,
                    'environment': {k: v for k, v in c.env.items() if k.startswith('RATELMQ_')},
                    'dotenv': c.envvars('dotenv'), 'stderr': c.stderr, 'what': c.bad})
                raise Violation(f, c.bad)
            up += c.row['st'] == 'up'
    log('%d starts, %d of them complete' % (len(rows), up))
    ev.traces += len(rows)
    ev.add('starts_complete', ev.extra.get('starts_complete', 0) + up)
    ev.add('starts_refused', ev.extra.get('starts_refused', 0) + len(rows) - up)
    for v in rows[:3]:
        ev.sample(v)


def sources(v):
    c = v['c']
    eff = lambda k: ([c[k][s] for s in ('env', 'dotenv', 'file') if c[k][s] != UNSET] or [UNSET])[0]
    return json.dumps([[c[k][s] == UNSET for s in ('env', 'dotenv', 'file')] for k in ('lis', 'pw')] +
                      [v['st'], eff('lis') == ['blank'], eff('pw') == ['blank']])


def culprit(v):
    c = v['c']
    bad = [a for a in c['lis']['file'] if a in ('busy', 'foreign', 'nonsense', 'noport', 'bigport')]
    return json.dumps([c['file'], len(c['lis']['file']), bad[:1], c['pw']['file'], v['st']])


@prop
def C17(ev):
    startups(ev, 'C17', [('MC_startup_sources', big(260, 432), sources, big(1, 3)),
                         ('MC_startup_sourcesbad', big(200, 1458), sources, 1)])
    ev.assume += ['values are taken at face value: two levels of .env files and lower-case variables are not covered']


@prop
def C18(ev):
    startups(ev, 'C18', [('MC_startup_faults', big(300, 400), culprit, big(1, 6)),
                         ('MC_startup_sourcesbad', big(100, 600), sources, 1)])
    # ... and stays up: every listener, also when for a while nothing can be accepted
    import checks_sys
    checks_sys.no_files(ev, 'C18', [3, 2, 4])
    checks_sys.crowd_sim(ev, 'C18', 'MC_crowd_sim', {'listeners': ['port', 'ip', 'six']}, big(10, 200), 20, listeners=3)
    ev.assume += ['"serves no client": clients try to connect to every usable address all the time until the process has ended']
