#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = 'TLA+ specification (%s) model-checked with TLC; its transitions replayed against the real broker'
TRACE = 'executions of the real broker recorded under load and validated by TLC against the TLA+ specification (BrokerTrace)'
ROWS = 'TLA+ specification (%s) checked with TLC; every case it enumerates replayed against the real %s'
CHECKS = {
    'C01': (ROWS % ('Topics', 'broker'),
            'Exhaustive over all filters of up to 3 levels (4 thorough) and names of up to 3 levels over an alphabet with empty, $ and '
            'wildcard-glued levels; the specification is data independent in plain levels and each run substitutes other strings. Known '
            'finding: P/# does not match P.'),
    'C02': (REPLAY % 'Broker', 'Every transition of two exhaustive configurations and simulated histories of six connections with many filters '
            'are replayed; all packets of all connections are compared. Assumes data independence in level names and identifiers.'),
    'C03': (TRACE, 'TLC decides for each recording whether one processing order explains what every connection received. Schedules are '
            'those that occur, over several worker-thread counts, not all; all schedules are covered on the model (BrokerSys refines Broker).'),
    'C04': (TRACE, 'As C03, with the real-time order between a packet and everything received anywhere before it was sent.'),
    'C05': (ROWS % ('Messages', 'broker'),
            'All classes of payload length (around 1/2/3/4-byte length boundaries and buffer multiples), topic, QoS, DUP, RETAIN and packet '
            'identifier in combination; contents are sampled within a class.'),
    'C06': (REPLAY % 'Broker', 'All request/reply sequences of the configurations, pipelined and one by one, SUBSCRIBE lists up to 1000 filters.'),
    'C07': (REPLAY % 'Broker', 'All histories of two connections with accepted, refused, missing and repeated CONNECTs, plus simulation with six.'),
    'C08': (ROWS % ('Auth', 'broker'),
            'Every attempt against every password file of the model and all pairs of attempts; names and passwords are drawn from lists of '
            'confusable strings. Trusts the password tool to make the entries (C15 checks it).'),
    'C09': (REPLAY % 'Broker', 'All ways to end a session and reconnect in a three-connection configuration.'),
    'C10': (REPLAY % 'Broker', 'All takeover histories of three connections over one shared and generated identifiers.'),
    'C11': (ROWS % ('Wire', 'broker'),
            'Wire defines validity of byte strings; all strings of the model (each packet type with every single damage of the model, at each '
            'place of a session) are sent and the effect compared. Bytes outside the modelled damages are sampled.'),
    'C12': ('TLA+ specifications (Crowd, BrokerSys) model-checked with TLC (liveness included); crowds of misbehaving clients from Crowd replayed '
            'against the real broker next to observed ones',
            'All histories of the Crowd configuration and simulated larger ones, with sampled malformed bytes; that well-behaved clients stay '
            'served is checked with time limits. Known finding: a subscriber that never reads stalls everyone.'),
    'C13': ('TLA+ specifications (Segments, ReadBuffer) checked with TLC; segmentations they enumerate replayed against the real broker',
            'Every cut of every stream of the model, byte-by-byte delivery, and every buffer fill level the ReadBuffer model reaches.'),
    'C14': ('TLA+ specifications (WriteBuffer, Slow) checked with TLC; pause patterns they enumerate replayed against the real broker',
            'Every behaviour of the slow-reader model with message sizes around buffer limits; partial writes are provoked by small socket '
            'buffers, where the kernel decides the exact cut.'),
    'C15': (ROWS % ('Auth', 'password tool'),
            'Every transition of a model of files as sequences of entries, each resulting file verified at a real broker; names from lists of '
            'confusable strings.'),
    'C16': (REPLAY % 'Broker with listeners', 'All assignments of three connections to two listeners; simulated histories with five.'),
    'C17': (ROWS % ('Startup', 'broker'), 'Every combination of sources (environment, .env, file) for both settings, valid and invalid values; '
            'file names, option forms and quoting are sampled.'),
    'C18': (ROWS % ('Startup', 'broker'), 'Every list of up to two (partly three and nine) addresses with any of five defects at any place, every '
            'defect of the password and configuration file; clients try to connect all the time during the start.'),
    'C19': ('TLA+ specifications (BrokerSys, Crowd) model-checked with TLC (termination under fairness); interrupts at every state of Crowd '
            'replayed against the real broker',
            'A signal in every state of the Crowd model and during heavy load, stalled readers and half-sent packets; a limit of seconds stands '
            'for "promptly".'),
    'C20': ('TLA+ specifications (Cycles, Crowd) checked with TLC; cycles of connections replayed against the real broker under socket and memory '
            'measurement',
            'Every way of ending in every state of the model, thousands of repetitions with bounded file descriptors and memory growth.'),
    'C21': (ROWS % ('KeepAlive', 'library'),
            'Every interval 0..65535 around its moment of expiry; every transition of a session table of three (thorough: four) clients.'),
    'C22': (ROWS % ('Codec', 'packet decoder and encoder'),
            'Every combination of the fields of each packet type from sets of boundary values, every pair of packet kinds in sequence; '
            'strings and payloads are described by such sets. TLC checks that rendering and parsing are inverse and agree with Wire.'),
}
NA = []
m = {'version': 1,
     'setup_cmd': 'python3 check.py setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p,
                 'technique': t, 'level': 'model_checking', 'level_note': n} for p, (t, n) in sorted(CHECKS.items())],
     'not_applicable': NA,
     'notes': 'See DESIGN.md. No hooks: the checks drive the real binaries; C21 and C22 link the library.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
