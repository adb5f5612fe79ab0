#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
H='src/broker/client_packet_handler.rs'; M='src/broker/messaging/messaging_service.rs'
S='src/broker/messaging/subscriptions_repository.rs'; L='src/mqtt/listener.rs'
D='src/mqtt/transport/packet_decoder.rs'; E='src/mqtt/transport/packet_encoder.rs'
B='src/mqtt/transport/mqtt_bytes_stream.rs'; A='src/broker/authentication.rs'
P='ratelmq-passwd/src/main.rs'; AP='src/application.rs'; SET='src/settings/mod.rs'; MAIN='src/main.rs'
SE='src/broker/session/session_entity.rs'; SR='src/broker/session/session_repository.rs'
R=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=('client TCP sockets',)):
    assert len(title)<=80,(id,len(title))
    R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None)))

prop('C01','Topic filter matching follows MQTT 3.1.1',
 'A message published on a topic name reaches a subscriber exactly when one of the subscriber\'s topic filters matches that name level by level: a plain level matches only the identical level (case- and byte-exact, empty levels included), "+" matches exactly one level, and a final "#" matches any number of further levels including none (so "a/#" matches "a"). A filter that begins with "+" or "#" does not match a topic name that begins with "$". A filter that is not well formed ("#" not last, a wildcard glued to other characters) matches nothing.',
 ['inputs'],'every topic filter x every topic name (any depth, any level contents), alone and together with any other subscriptions stored in the broker',
 'The unit tests check about 25 hand-picked filter/topic pairs on the subscription tree only; matching must hold for the whole product of filters and names, through the real subscribe and publish path.',
 [S,M,H],[('level-by-level walk over a tree keyed by topic level',S),('insertion of a filter into the tree',S)],
 [('subscription tree','one node per filter level, client ids at the node where a filter ends',S)])
prop('C02','Each message goes to exactly the currently matching subscriptions',
 'When the broker processes a published message, every connected client receives one copy for each distinct topic filter it holds at that moment that matches the topic, and no other client receives anything. Subscribing again to a filter already held changes nothing, unsubscribing removes exactly the named filters of that one client (a filter not held is a no-op), and one client\'s subscribe, unsubscribe, disconnect or reconnect never changes what other clients receive.',
 ['histories'],'every sequence of connect, subscribe, re-subscribe, unsubscribe, publish, disconnect, connection loss and reconnect by any number of clients, with shared, overlapping and nested filters and any fan-out',
 'No test runs two operations that interact (subscribe twice, unsubscribe, then publish); the handler, messaging service and session store have no end-to-end test at all.',
 [S,M,H,SR],[('set of client ids per tree node',S),('lookup of subscriber channels at publish time and fan-out',H),('removal of one client from every node',S)],
 [('subscription tree','which client holds which filter',S),('session table','client id to outgoing channel',SR)])
prop('C03','All subscribers see messages in one order that respects each publisher',
 'Messages that one client publishes reach every subscriber in the order in which that client sent them. Any two messages that are both delivered to two subscribers through the same filters are delivered to both in the same order, whichever clients published them.',
 ['schedules'],'every interleaving of concurrently publishing clients, subscribers joining and leaving, and tasks inside the broker, with any number of worker threads',
 'No test starts two connections; ordering depends on task scheduling and on what is awaited where, which single-packet tests never exercise.',
 [H,L,M],[('single event queue drained by one handler that finishes one event before the next',H),('one FIFO channel and one writer task per connection',L)])
prop('C04','Acknowledged subscribe and unsubscribe are in force for everyone',
 'Once a client has received the acknowledgement of a SUBSCRIBE, every matching message that any client sends afterwards is delivered to it (while it stays connected and subscribed). Once it has received the acknowledgement of an UNSUBSCRIBE, no message that is sent afterwards is delivered to it through the removed filters.',
 ['schedules','histories'],'every real-time order of acknowledgements and publishes across connections, under concurrent load',
 'It is a happens-before guarantee between different connections; no test has more than one connection or observes an acknowledgement end to end.',
 [H,M],[('the subscription change is awaited before the acknowledgement is queued',H)])
prop('C05','Messages are delivered unaltered, at QoS 0',
 'A delivered message carries exactly the topic name and the payload bytes that were published, for every payload size up to the protocol limit and every topic name. Because subscriptions are granted QoS 0, it is delivered as a QoS 0 message: no packet identifier, and the DUP and RETAIN flags clear, whatever flags the publisher used.',
 ['inputs'],'all payload contents and lengths (in particular at 127/128, 16383/16384, 2097151/2097152 and around multiples of the 4096-byte buffers), all topic names, all publisher QoS/DUP/RETAIN values, all packet identifiers',
 'The tests decode and encode packets of fewer than 60 bytes; no test takes a payload in on one connection and out on another, or crosses a buffer or length-field boundary.',
 [D,E,B,H],[('remaining-length codec',D),('remaining-length codec',E),('buffered reads and writes in chunks',B),('forwarding of the publish packet',H)])
prop('C06','Every request gets exactly its own reply, in order',
 'The first packet a client receives is the CONNACK for its CONNECT; after that every SUBSCRIBE is answered by one SUBACK with the same packet identifier and one return code per requested filter in order (the granted QoS, 0), every UNSUBSCRIBE by one UNSUBACK with the same identifier and every PINGREQ by one PINGRESP. Replies go only to the requesting connection, in request order, and nothing else is ever sent unasked except messages for held subscriptions.',
 ['inputs','histories'],'every sequence (pipelined or not) of requests on any number of connections, every packet identifier 1..65535, every number of filters per request',
 'The tests only encode isolated acknowledgement packets; no test sends a request to the broker and looks at the reply.',
 [H,L,E,D],[('one handler per request type that queues the reply on the requesting connection\'s channel',H)])
prop('C07','Only a connection with an accepted CONNECT can act on the broker',
 'A connection whose first packet is not a CONNECT is closed without any effect or reply. A connection whose CONNECT was refused, that sent DISCONNECT, that sent a second CONNECT, or that the broker has closed, has no further effect: whatever it has sent or still sends is neither delivered, nor stored, nor answered, and the connection is closed. Its packets also never act on behalf of another connection that uses the same client identifier.',
 ['inputs','histories'],'every packet sequence before CONNECT and after refusal, DISCONNECT, second CONNECT or takeover, pipelined in one segment or sent later, with other clients connected',
 'No test opens a connection to the broker; the guarantee is about what the connection loop and the packet handler do together after the connection has logically ended.',
 [L,H,M],[('first packet must be CONNECT',L),('packets count only if their connection owns the session of its client id',H)],
 [('session table','the connection that currently owns each client id',SR)])
prop('C08','Credentials decide admission exactly',
 'A CONNECT with a user name is accepted if and only if the password file has an entry for exactly that user name (case-sensitive) and the presented password is exactly the one the entry was made for; otherwise, also when the password is missing, it is answered with "not authorized" and the connection is closed. A CONNECT without a user name is accepted. The decision depends on nothing else: not on other users\' entries, earlier attempts, the client identifier or a will message.',
 ['inputs','histories','configurations'],'every password file, user name and password (empty, non-ASCII, containing ":" or blanks, prefixes and suffixes of real ones), with and without a will, and every history of earlier attempts',
 'No test constructs the identity store or sends a CONNECT with credentials to the broker.',
 [A,H,D],[('parsing of the password file into a map',A),('hash verification',A),('gate before the session is created',H),('order of the CONNECT payload fields',D)])
prop('C09','A session ends with its connection, however it ends',
 'After a client\'s connection ends (DISCONNECT, orderly close, half-close, reset, protocol error or takeover) its subscriptions are gone. A later connection with the same client identifier receives nothing on account of them, and CONNACK always reports that no session is present.',
 ['histories','fault_sequences'],'every way and moment of losing a connection, any number of reconnects with the same or other identifiers, clean-session flag 0 or 1',
 'The only related test removes a client from a bare subscription tree; that the broker notices the end of a connection and does this is untested.',
 [L,H,M,S],[('end of the connection read loop reported to the handler',L),('removal of session and subscriptions',M)])
prop('C10','One connection per client identifier; anonymous identifiers are unique',
 'When a client connects with an identifier that is already connected, the earlier connection is closed and only the newest one stays; packets still in flight from the earlier connection, and its end, do not affect the newer one. Clients that connect without an identifier never share a session with any other client.',
 ['histories','schedules'],'every order of connects, packets and disconnects on connections that share an identifier, including races between them, and any number of clients with empty identifiers',
 'No test connects two clients; the races are between the connection tasks of the old and the new connection.',
 [H,M,SR,L],[('replacement of the session on CONNECT',H),('identifier generation for empty client ids',L)],
 [('session table','client id to owning connection',SR)])
prop('C11','A malformed packet ends the connection and has no effect',
 'When a client sends bytes that are not a valid packet for a server (reserved or server-only packet type, QoS 3, over-long remaining length, fields that do not fit the declared length exactly, invalid UTF-8 in a string, an empty SUBSCRIBE or UNSUBSCRIBE, wrong fixed-header flags on them, a topic name that is empty or has wildcards), the broker closes that connection. Everything before the malformed packet takes effect normally; the malformed packet and everything after it have no effect.',
 ['inputs'],'every byte sequence a client can send, at every position in a session',
 'The decoder tests feed 15 valid packets and no invalid one.',
 [D,B,L,'src/mqtt/packets/mod.rs'],[('decoding with bounds of the declared length; errors end the read loop',D),('end of the read loop closes the connection',L)])
prop('C12','No client can disturb the service of other clients',
 'Whatever any client sends or does (malformed or truncated packets, floods, abrupt closes at any point, failed logins, protocol violations, not reading what it subscribed to), the broker process keeps running, accepts new connections, and keeps serving the other connected clients: their requests are answered and their messages delivered.',
 ['inputs','fault_sequences','schedules'],'every behaviour of misbehaving clients, at any time, next to well-behaved clients',
 'No test has a second client; a panic in the shared handler or a blocked queue needs particular sequences (a packet after a refusal, a reply to a connection that is already gone).',
 [H,L,M,D],[('one shared event handler that must neither panic nor block',H),('per-connection tasks',L)])
prop('C13','How the byte stream is cut into segments does not matter',
 'The effect of a client\'s packets depends only on the bytes it sends, not on how the network splits or merges them: packets split at any byte or coalesced in any number are processed exactly as if each had arrived alone.',
 ['inputs','schedules'],'every segmentation of every packet sequence, in particular cuts inside the fixed header, the length field and strings, and packets that end or start exactly where the receive buffer does',
 'Every decoder test delivers one whole packet in one write.',
 [B,D,L],[('buffer refilled until enough bytes are there',B)],[('receive buffer','bytes received and not yet consumed',B)])
prop('C14','A slow reader gets every message, whole and in order',
 'What the broker writes to a connection is always a sequence of complete, correctly framed packets, whatever the sizes and however slowly the client reads. A client that pauses reading and then continues receives every message for its subscriptions, complete and in order, without any further traffic being needed to push out the rest.',
 ['schedules','inputs'],'every pattern of reading and pausing, every number and size of queued messages (beyond the 32-entry queues, the 4096-byte buffer and the socket buffers)',
 'The encoder tests write one packet of at most 20 bytes to an idle socket; a partial write or a full queue never happens in them.',
 [B,E,L,H],[('write buffer flushed at the end of a packet',B),('bounded channel between handler and writer with back-pressure',L)],
 [('write buffer','bytes encoded and not yet accepted by the socket',B)])
prop('C15','The password tool changes exactly the named user',
 'After setting a password for a user, exactly that password authenticates exactly that user name, and after deleting a user no password does. All other entries of the file keep authenticating exactly as before, for any user names (one contained in another, differing only in case, containing special characters) and any file the broker accepts. A user name that cannot be stored as an entry is rejected and the file is left unchanged.',
 ['histories','inputs'],'every sequence of set and delete operations with any user names and passwords, starting from any valid file (empty, without final newline, with duplicate entries)',
 'The tool has no test at all.',
 [P,A],[('search for the entry and replacement or append',P),('parsing of the password file',A)],
 [('password file','sequence of user:hash lines',P)],('exit status and file of the tool','CONNACK of a broker started with the file'))
prop('C16','All configured listeners serve one and the same broker',
 'The broker accepts connections on every configured listener address. Clients are equal whichever listener they use: messages, subscriptions and client identifiers are shared between listeners exactly as on a single one.',
 ['configurations','histories'],'every list of listener addresses and every assignment of clients to listeners',
 'Nothing in the test suite starts the application or a listener.',
 [AP,L],[('one listener task per address feeding the same event queue',AP)])
prop('C17','Environment variables override the configuration file',
 'Each setting takes its value from the RATELMQ_ environment variable for it if that is set, and otherwise from the configuration file named on the command line; variables may also come from a .env file, which never overrides the real environment. Settings that are not overridden keep the value of the file.',
 ['configurations'],'every combination of sources (environment, .env, file) and values for every setting',
 'A "todo: tests for envs precedence" stands in the source; nothing is tested.',
 [SET,MAIN],[('merge of file and environment sources',SET),('loading of .env before start',MAIN)],(),('which listener answers, which credentials are accepted, exit status',))
prop('C18','The broker starts completely or not at all',
 'If any part of the start-up cannot be done (configuration file missing or invalid, password file missing or with an invalid entry, any listener address unusable), the process terminates with a failure status and serves no client. Otherwise every listener is up and stays up.',
 ['configurations','fault_sequences'],'every combination of faulty and correct start-up inputs, whichever listener in the list is the bad one',
 'No test starts the application.',
 [AP,H,A,SET],[('errors during initialization abort the start',AP)],(),('exit status','TCP connects'))
prop('C19','An interrupt stops the broker promptly and cleanly',
 'On an interrupt signal the broker stops accepting, closes all connections and terminates with exit status 0 within a few seconds, whatever its clients are doing at that moment. Until then it serves normally.',
 ['schedules','fault_sequences','histories'],'a signal at any moment, with any number of clients in any state (idle, half-way through a packet, publishing at full speed, not reading)',
 'No test starts or stops the application; termination depends on every task noticing the signal.',
 [AP,H,L],[('stop broadcast to handler and listeners; waiting for all tasks',AP)],(),('exit status and time','TCP connects','EOF at clients'))
prop('C20','Ended connections release their resources',
 'When clients are gone, nothing of them is left: the number of sockets the broker holds returns to what it was before they came, however their connections ended, and any number of clients can come and go without the broker ever running out.',
 ['histories','fault_sequences'],'every number of connections and every way they can end (also in the middle of a packet, refused, taken over, with undelivered messages queued)',
 'No test opens and closes a connection to the broker.',
 [L,H,M],[('reader and writer task end when the connection does',L),('session removed, dropping the last sender',M)],(),('/proc/<pid>/fd of the broker',))
prop('C21','Keep-alive expiry is computed as one and a half times the interval',
 'A session with keep-alive interval 0 never expires; any other expires exactly when one and a half times the interval (in whole seconds, rounded down) has passed since its last activity, and the list of expired sessions contains exactly those.',
 ['inputs','histories'],'every interval 0..65535, every last-activity time and query time, every set of sessions and history of insertions, activity and removals',
 'No test calls the expiry computation.',
 [SE,M],[('expiry computation',SE),('filter over all sessions',M)],[('session','interval and time of last activity',SE)],('library API of session and messaging service',))
prop('C22','Every packet is read and written exactly as MQTT defines it',
 'Reading the bytes of any valid packet yields exactly the fields it carries: identifier, keep-alive interval, clean-session flag, will (topic, payload, QoS, retain), user name and password; topic, payload, QoS, DUP, RETAIN and packet identifier; the filters in order with their requested QoS; acknowledged identifiers. Writing any packet produces exactly the bytes MQTT 3.1.1 defines for it, with every flag, return code and length. Neither depends on the packets before it on the connection or on the size of the buffers.',
 ['inputs','histories','configurations'],'every valid packet of every type, every sequence of packets on one connection, every buffer size and segmentation',
 'The codec tests read and write one small packet of each type; most combinations of flags, lengths and identifiers never occur, and the fields the broker does not act on (keep-alive, will, requested QoS) are visible nowhere else.',
 [D,E,B],[('decoding of each packet type',D),('encoding of each packet type',E)],(),('library API of packet decoder and encoder',))
with open(OUT,'w') as f:
    for r in R: f.write(json.dumps(r,ensure_ascii=False)+'\n')
print(len(R))
