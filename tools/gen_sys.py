#!/usr/bin/env python3
"""Writes the configurations of BrokerSys (committed as generated)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'mc')


def cfg(name, shared, prog, maxsend, caps, reads, intr, props, conns=(1, 2), invs=True, now=True):
    open(os.path.join(D, name + '.cfg'), 'w').write('''SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- Matches
 Admits <- Anonymous
 Conns = {%s}
 Shared = %s
 IdOf <- cIdOf
 Program <- %s
 MaxSend = %d
 EQ = %d
 CQ = %d
 SO = %d
 Reads = {%s}
 Interrupt = %s
 StopNow = %s
%s
%s
CHECK_DEADLOCK FALSE
''' % (','.join(map(str, conns)), str(shared).upper(), prog, maxsend, *caps, ','.join(map(str, reads)), str(intr).upper(), str(now).upper(),
       'INVARIANTS TypeOK Refines NothingMissing Agree' if invs else '', 'PROPERTIES ' + ' '.join(props) if props else ''))


LIVE = ('Served', 'Processed', 'Released')
cfg('MC_sys_shared', True, 'cSmall', 3, (2, 1, 1), [1, 2], False, LIVE)
cfg('MC_sys_own', False, 'cSmall', 3, (2, 1, 1), [1, 2], False, LIVE)
cfg('MC_sys_stop', True, 'cSmall', 3, (2, 1, 1), [1, 2], True, ('Stops',))
cfg('MC_sys_full', True, 'cProgram', 3, (2, 1, 1), [1, 2], False, ())
cfg('MC_sys_full_own', False, 'cProgram', 3, (2, 1, 1), [1, 2], False, ())
cfg('MC_sys_three', True, 'cSmall', 2, (2, 1, 1), [1, 2, 3], False, (), conns=(1, 2, 3))
# a client that does not read: the known finding (the named property is expected to fail)
cfg('MC_sys_stall', False, 'cStall', 6, (2, 1, 1), [2], False, ('Processed',))
cfg('MC_sys_stall_stop', False, 'cStall', 6, (2, 1, 1), [2], True, ('Stops',))
# before the handler could be interrupted while it waits (expected to fail)
cfg('MC_sys_stop_before', False, 'cStall', 6, (2, 1, 1), [2], True, ('Stops',), now=False)
# the same client with a queue that its messages do not fill: nobody else is disturbed
cfg('MC_sys_fits', False, 'cStall', 4, (2, 6, 1), [2], True, ('Served', 'Processed', 'Stops'))
