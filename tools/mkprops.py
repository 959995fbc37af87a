import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":["libamqpprox/amqpprox_"+f if not f.startswith("amqpprox/") and not f.startswith("authproto") else f for f in files],
                  "mechanism":[{"name":a,"where":"libamqpprox/amqpprox_"+b} for a,b in mech],
                  "observe_at":observe or ["bytes on the client and broker sockets"],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":"libamqpprox/amqpprox_"+c} for a,b,c in state]
    P.append(d)
S,I,H,C,F="schedules","inputs","histories","configurations","fault_sequences"
p("C01","Proxied streams arrive complete, in order and unaltered",
  "After a connection is opened, what the broker receives from it is always a prefix of what that client sent and what the client receives is a prefix of what that broker sent: nothing lost, repeated, reordered, altered or taken from another connection. While both ends stay connected every complete frame sent is delivered, however the bytes were segmented and however slowly either side reads. Frames sent before one side ends the connection in an orderly way, while the other side is sending nothing, are delivered before that end is passed on.",
  [S,I,F],"for all frame sequences and sizes up to the protocol maximum, segmentations, socket buffer sizes, stalls of either peer, plain or TLS on either side, thread schedules and ways of ending",
  "The unit tests push a handful of buffers through mocked sockets; segmentation, short reads and writes, full socket buffers, TLS record boundaries and concurrent closes are never combined.",
  ["session.cpp","packetprocessor.cpp","frame.cpp","bufferpool.cpp","maybesecuresocketadaptor.h"],
  [("read/process/write chain per direction, one outstanding operation each","session.cpp: readData, handleData, handleWriteData, copyRemaining"),("frame splitting with carry-over of partial frames","packetprocessor.cpp: process")],
  [("water mark and buffer handles","bytes read but not yet forwarded, per direction","session.h")])
p("C02","The broker sees the client's own handshake, and the client the broker's verdict",
  "A broker that is handed a connection receives one well-formed AMQP handshake with the client's own properties, mechanism, response, locale, tuning and virtual host unchanged, extended only by the documented proxy identification of that client and that listener (and by what an authentication service substituted). The client is told its connection is open at most once and only after its broker said so. A broker that refuses with a Close during the handshake has that code and text passed to the client.",
  [S,I,F],"for all client property tables, credentials, tuning values, vhost names, segmentations, concurrent handshakes, refusals at each handshake stage and schedules",
  "Connector tests feed single fixed methods; arbitrary field tables, interleaved sessions, fragmentation and refusals at every stage are not sampled.",
  ["connector.cpp","types.cpp","fieldtable.cpp","fieldvalue.cpp","sessionstate.cpp","session.cpp"],
  [("client handshake recorded, then replayed to the broker","connector.cpp: receive, synthesizeProtocolHeader"),("identification added to client properties","connector.cpp: injectProxyClientIdent")])
p("C03","A connection only reaches a broker its vhost is mapped to",
  "A client of a virtual host is connected only to a broker that the vhost's mapping (or, without one, the default farm) names under a configuration that was in force after its Open arrived; a client of a vhost whose mapping is in force and whose brokers work is served. A client of a vhost with no usable mapping never reaches a broker and is told so with a Close naming the vhost, rather than left waiting or dropped in silence.",
  [S,I,H,C],"for all histories of map, farm, default and unmap commands interleaved with connecting clients, and all vhost names",
  "Tests exercise the selector single-threaded with fixed maps; commands racing connection attempts are not covered.",
  ["connectionselector.cpp","resourcemapper.cpp","farmstore.cpp","farm.cpp","backendstore.cpp","mapcontrolcommand.cpp","session.cpp"],
  [("vhost to farm or backend, default farm","connectionselector.cpp: acquireConnection"),("refusal with Close","session.cpp: establishConnection")])
p("C04","Failing brokers are skipped until every candidate was tried",
  "When a broker refuses the connection, cannot be reached, does not answer the connection attempt or its name cannot be resolved, the client's connection is moved on to another broker of its farm, each broker being tried at most once per client, brokers of the proxy's own datacenter before others where the farm is partitioned that way. The client is served if any of its brokers works and is disconnected, not left waiting, once all have failed. A broker's failure never disturbs connections to other brokers.",
  [S,F,C],"for all subsets of failing brokers, failure kinds (refused, unreachable, silent, reset right after accept, resolution failure, several addresses), recovery times and schedules",
  "No test has a failing endpoint behind the asynchronous connect path; only the selection function is tested.",
  ["session.cpp","connectionmanager.cpp","affinitypartitionpolicy.cpp","robinbackendselector.cpp","backendset.cpp","farm.cpp","dnsresolver.cpp"],
  [("retry over resolved addresses and then backends","session.cpp: attemptConnection, attemptResolvedConnection, handleConnectionError"),("own datacenter first","affinitypartitionpolicy.cpp, connectionmanager.cpp")])
p("C05","Round-robin spreads connections evenly over a farm",
  "Connections made to a farm whose brokers all work are spread evenly: after any number of connections to an unchanged farm the numbers given to its brokers (of the preferred datacenter where partitioned) differ by at most one, whatever the number of brokers and however the connections overlap in time.",
  [S,H,C],"for all farm sizes, partitionings, arrival patterns and overlaps of connections",
  "Tests call the selector directly once per connection; the number of times a real session consults it per connection is not covered.",
  ["robinbackendselector.cpp","backendset.cpp","farm.cpp","connectionmanager.cpp","session.cpp"],
  [("marker advanced per selection","robinbackendselector.cpp: select"),("selection per connection attempt","session.cpp: attemptConnection")])
p("C06","No broker is contacted before the authentication service allows it",
  "With an external authentication service configured, no connection or client data reaches a broker unless the service answered that client's own request (its vhost, mechanism and credentials) with a successful response saying allow; a denial, an error status, a malformed, truncated or missing answer, or an unreachable service all end the client within the timeout. A denied client that announced the capability is told with an access-refused Close carrying the service's reason, and credentials substituted by the service, with the reason it gave for them, are the ones the broker sees.",
  [S,I,F],"for all interleavings of clients, answers, delays, service failures and response shapes",
  "The intercept's tests check construction and a few mocked answers; transport faults, wrong statuses and concurrent clients are not exercised.",
  ["httpauthintercept.cpp","session.cpp","connector.cpp","authcontrolcommand.cpp","defaultauthintercept.cpp"],
  [("request, 30 s timeout, response decoding","httpauthintercept.cpp"),("gate before the first connection attempt","session.cpp: establishConnection")],
  None,["requests at the authentication service","connection attempts at brokers","Close methods at clients"])
p("C07","Connection rate limits admit what they allow and no more",
  "With a limit of n connections per second on a vhost (specific or default), of connections arriving together in one window exactly the first n are admitted and every other is refused with a Close saying it was limited, never left hanging; other vhosts are unaffected. Alarm-only limits refuse nothing; disabling a limit stops refusals; after a quiet second the full allowance is available again.",
  [S,H,C],"for all limits, burst sizes, vhosts, configuration changes between bursts and wall-clock jumps",
  "Limiter tests call the limiter directly with real sleeps; whole connections through the proxy with concurrent arrivals and clock changes are not covered.",
  ["connectionlimitermanager.cpp","fixedwindowconnectionratelimiter.cpp","connectionselector.cpp","limitcontrolcommand.cpp","session.cpp"],
  [("fixed window per vhost","fixedwindowconnectionratelimiter.cpp"),("refusal after a pause","session.cpp: establishConnection, LIMIT case")])
p("C08","Data rate limits bound throughput without stalling or corrupting it",
  "Under a data rate limit of X bytes per second a client's data is taken at no more than X bytes in each second plus one read's worth, and yet all of it is eventually delivered intact at a rate that uses the allowance; clients without a limit, and traffic towards clients, are not slowed. Setting, changing or removing the limit while data flows takes effect without losing data or leaving the connection stuck.",
  [S,H,C,F],"for all limits, traffic patterns, limit changes at any moment, plain and TLS clients, and schedules of the control and data threads",
  "Socket adaptor tests use a mocked socket and one limit; timer and reader interleavings and limit changes mid-flow are not reached.",
  ["maybesecuresocketadaptor.h","dataratelimitmanager.cpp","dataratelimit.cpp","session.cpp","limitcontrolcommand.cpp"],
  [("quota per second, read deferred to a timer","maybesecuresocketadaptor.h: async_read_some, handleDataRateTimer"),("limits pushed to live sessions","session.cpp: updateDataRateLimits")])
p("C09","Pausing a vhost holds new connections, unpausing serves every one of them",
  "While a vhost is paused no new connection of it reaches a broker and connections of other vhosts are unaffected. Clients that arrive while it is paused are held without being dropped, and once the vhost is unpaused every client that is waiting is served (or its connection ended) within bounded time; none stays stuck, whatever the order and timing of pause, unpause and arrivals. A connection that was open when its vhost was paused still receives what its broker sends, until the unpause ends it.",
  [S,H],"for all interleavings of pause and unpause commands with handshakes in any stage",
  "Pause tests cover the vhost state table; nothing covers a live session meeting pause and unpause at any point.",
  ["vhoststate.cpp","vhostcontrolcommand.cpp","vhostestablishedpauser.cpp","session.cpp","sessionstate.cpp"],
  [("vhost flags","vhoststate.cpp"),("session pause and unpause","session.cpp: pause, unpause, establishConnection"),("hook on vhost established","vhostestablishedpauser.cpp")])
p("C10","Disconnect commands end exactly the sessions they name, properly",
  "A disconnect command ends exactly the session or the sessions of the vhost or backend it names, within bounded time, and no other session is disturbed. A forced disconnect ends the client's and the broker's connection; a backend disconnect ends the broker's and leaves the client's. A graceful disconnect tells the client with a Close and, once the client has answered it, the broker, each as one intact frame between the frames of the proxied streams.",
  [S,H],"for all session states and traffic at the moment of the command, all targets, and schedules of the control and data threads",
  "Command tests parse arguments against mocks; live traffic during the command and both ends' view are not observed.",
  ["sessioncontrolcommand.cpp","vhostcontrolcommand.cpp","session.cpp","connector.cpp","server.cpp"],
  [("forced, graceful and backend-side disconnect","session.cpp: disconnect, backendDisconnect, performDisconnectBoth"),("visiting sessions","server.cpp: visitSessions")])
p("C11","The end of one side ends the other, and nothing leaks",
  "When a client or a broker ends, resets or breaks a connection at any point of its life, the opposite connection is closed within bounded time (once data already taken in could be handed over), and nothing of the session stays behind: its sockets are closed and it disappears from the connection listing. After all peers have left, the proxy holds no connection, however the sessions ended.",
  [S,F],"for all moments and ways in which either side ends (handshake stages, in flight data, TLS, paused, limited, rate limited, waiting for authentication, name or connect), and schedules",
  "Tests of session teardown script one or two orders on mocked sockets and never count descriptors.",
  ["session.cpp","server.cpp","maybesecuresocketadaptor.h","sessionstate.cpp"],
  [("error paths close both sockets","session.cpp: handleSessionError, performDisconnectBoth"),("finished sessions dropped every second","server.cpp: timer; sessioncleanup.cpp")],
  None,["sockets held by the process","CONN output"])
p("C12","Hostile or broken peers only hurt their own connection",
  "Whatever bytes a client or a broker sends at any stage (garbage, truncated, oversized, deeply nested, mistyped, misordered frames, or frames only the other side may send), the proxy neither crashes nor misuses memory nor spins, ends or ignores only the offending connection, never relays a connection as open that its broker did not open, and keeps serving all others correctly.",
  [I,S,F],"for all byte sequences at every stage of the handshake and after it, from clients and brokers, concurrently with well-behaved connections",
  "Decoder tests use a few malformed samples; memory safety over arbitrary input and isolation of bystanders are not established.",
  ["frame.cpp","types.cpp","method.cpp","connector.cpp","packetprocessor.cpp","fieldvalue.cpp","session.cpp"],
  [("bounds checked decoding","types.cpp, buffer.cpp, frame.cpp"),("errors turned into a disconnect of that session","session.cpp: handleData")])
p("C13","Statistics count everything once and agree on every axis",
  "The totals the proxy reports (packets, frames and bytes each way) always add up to what was actually carried, and the per-vhost and per-backend totals add up to the overall totals; nothing is lost or counted twice when connections end, and no counter ever runs backwards or below zero. The gauges of open connections match the connections that existed, and every connection that ended is counted exactly once, by how it ended (in an orderly way, by the client, by the broker, refused by authentication).",
  [S,H],"for all traffic, connection lifetimes relative to the collection ticks, overlaps and ends, and any number of statistics readers",
  "Collector tests feed synthetic session states; consistency against real traffic with sessions ending between ticks is not checked.",
  ["statcollector.cpp","statcollector.h","sessionstate.cpp","statsnapshot.cpp","server.cpp","statcontrolcommand.cpp","statsdpublisher.cpp","connectionstats.cpp"],
  [("per tick collection with rollover of finished sessions","statcollector.cpp"),("counters in the session","sessionstate.cpp")],
  None,["STAT LISTEN output","statsd datagrams"])
p("C14","Configuration changes never disturb established connections",
  "Adding, changing or deleting backends, farms, mappings, defaults, datacenter, partitioning, limits, hostname mapping, authentication or TLS settings, or stopping listeners never closes, alters, stalls or misroutes a connection that is already open, and never crashes the proxy or lets a connection that is being established use something that no longer exists.",
  [S,H,C],"for all sequences of configuration commands at every moment of connections' lives, and schedules of the control and data threads",
  "Commands are tested in isolation against stores; concurrent use of an entry being deleted is not exercised.",
  ["backendstore.cpp","farmstore.cpp","farm.cpp","connectionmanager.cpp","server.cpp","hostnamemapper.h","dnshostnamemapper.cpp","authcontrolcommand.cpp"],
  [("stores guarded by mutexes","backendstore.cpp, farmstore.cpp"),("per connection snapshot of candidates","connectionmanager.cpp")])
p("C15","Listeners accept until stopped, and survive accept errors",
  "Once a listener is started every client that connects to it is taken up and handled, including after transient accept failures (aborted connections, exhausted descriptors), after failures to start another listener on an unusable port, and however many listeners exist. Stopping a listener refuses new connections on that port only, and the port can be listened on again.",
  [S,H,F],"for all sequences of listen start, stop and stop-all, ports in use, and injected accept errors, interleaved with clients",
  "No test injects an accept or bind error or restarts a listener.",
  ["server.cpp","listencontrolcommand.cpp","control.cpp"],
  [("accept loop rearmed after each accept","server.cpp: doAccept"),("start and stop of listening","server.cpp: startListening, stopListening")])
p("C16","EXIT always ends the process cleanly",
  "The exit command ends the process within bounded time with status zero, whatever connections, handshakes, timers, name lookups, authentication requests or control clients are active at that moment, and without touching freed memory on the way.",
  [S,F],"for all activity in progress when the command arrives, and schedules of the threads that are shutting down",
  "Process shutdown is never run by the tests.",
  ["control.cpp","server.cpp","exitcontrolcommand.cpp","dnsresolver.cpp"],
  [("work released, contexts stopped, threads joined","server.cpp: stop; control.cpp"),("order of destruction","amqpprox.m.cpp")],
  None,["end of the process and its status"])
p("C17","Secured legs are secured from the first byte",
  "On a secure listener nothing of the AMQP conversation is accepted or sent except inside TLS, and one that requires client certificates serves no client without a valid one; towards a broker marked TLS nothing but the optional PROXY header (which comes first, once, and names that client's address) is sent outside TLS, and where verification is on, no AMQP byte is sent to a broker whose certificate does not verify. Towards a broker not marked TLS plain AMQP is spoken, and a connection tried on a TLS broker and moved to a plain one (or back) follows the setting of the broker it ends on.",
  [S,I,F,C],"for all combinations of secure and plain listeners and brokers, failing handshakes, wrong certificates, clients not speaking TLS, failover between them and segmentations",
  "TLS adaptor tests check the flag handling on mocks; no real handshake with faults is run.",
  ["maybesecuresocketadaptor.h","session.cpp","proxyprotocolheaderv1.cpp","server.cpp","tlscontrolcommand.cpp"],
  [("secure flag per socket, handshake before data","maybesecuresocketadaptor.h"),("PROXY header before the handshake","session.cpp: attemptEndpointConnection")])
p("C18","One stuck party never stalls the others",
  "While brokers, the authentication service, lookups of other brokers' names, individual clients or control-socket users are arbitrarily slow or silent, other clients are served with bounded delay and other control commands are answered completely with bounded delay. Control users that send partial, oversized or meaningless lines, do not read, or vanish affect only themselves.",
  [S,F],"for all sets of stalled parties and their timing relative to bystanders",
  "No test runs two parties at once.",
  ["control.cpp","dnsresolver.cpp","httpauthintercept.cpp","session.cpp","server.cpp"],
  [("control plane on its own thread","control.cpp"),("resolver threads","dnsresolver.cpp"),("asynchronous authentication","httpauthintercept.cpp")])
p("C19","A slow reader throttles its own sender, not the proxy's memory",
  "When a client or a broker reads slower than its counterpart sends, the proxy stops taking in data for that connection after a bounded amount, so what it holds per connection never exceeds a fixed bound however much is sent; when the reader resumes, the rest flows.",
  [S,I,F],"for all rates, frame sizes, buffer sizes and stall patterns of both sides",
  "Tests never fill a socket buffer.",
  ["session.cpp","bufferpool.cpp","packetprocessor.cpp"],
  [("next read only after the write completed","session.cpp: handleWriteData")])
p("C20","Name changes of brokers are picked up, and bad answers do not stick",
  "For a backend given by DNS name, connections made later than the cache interval after a change of its addresses go to the current addresses, and a failed, empty or slow lookup affects only the connections waiting on it: once lookups succeed again new connections are served. All addresses of a name are tried before the next backend.",
  [S,F,H],"for all histories of address changes, failures, delays and recoveries relative to connections and cache cleanups",
  "Resolver tests override the lookup and check the cache once; changes over time and concurrent lookups are not covered.",
  ["dnsresolver.cpp","session.cpp","backendcontrolcommand.cpp"],
  [("cache flushed on a timer","dnsresolver.cpp"),("addresses of DNS backends tried in turn","session.cpp: attemptResolvedConnection")])
p("C21","Control listings show what was configured, and sessions as they are",
  "Every control command is answered completely, and the listings of backends, farms, mappings, limits, paused vhosts, authentication and datacenter always show the result of the acknowledged commands as if they had been carried out one after the other, neither losing nor inventing an entry, however many users issue commands at once (one command per control connection). The connection listing shows each open connection exactly once with its client, broker and vhost.",
  [S,H],"for all command sequences from several control connections at once, with sessions coming and going",
  "Command tests run one command against a fresh object; histories from concurrent users are not checked.",
  ["control.cpp","mapcontrolcommand.cpp","farmcontrolcommand.cpp","backendcontrolcommand.cpp","connectionscontrolcommand.cpp","limitcontrolcommand.cpp","resourcemapper.cpp","farmstore.cpp","backendstore.cpp","vhostcontrolcommand.cpp","datacentercontrolcommand.cpp"],
  [("commands executed one at a time on the control thread","control.cpp"),("stores","resourcemapper.cpp, farmstore.cpp, backendstore.cpp")],
  None,["replies on the control socket"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
