#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
L='ipmb/src/lib.rs'; BC='ipmb/src/bus_controller.rs'; PL='ipmb/src/platform/linux.rs'; EM='ipmb/src/platform/linux/encoded_message.rs'
IM='ipmb/src/platform/linux/io_mul.rs'; FD='ipmb/src/platform/linux/fd.rs'; PM='ipmb/src/platform/mod.rs'; MR='ipmb/src/memory_registry.rs'
MS='ipmb/src/message.rs'; LB='ipmb/src/label.rs'; UT='ipmb/src/util/mod.rs'; FF='ipmb-ffi/src/lib.rs'; JS='ipmb-js/src/lib.rs'; DV='ipmb-derive/src/lib.rs'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
NT="The 9 stable tests only evaluate label expressions; none joins a bus."
p('C01','A multicast message reaches every matching endpoint exactly once',
 "A multicast message sent by any endpoint of a bus is delivered exactly once to every endpoint that is joined when the message is routed and whose label satisfies the message's label expression, the sender's own endpoint and the controller's own endpoint included, and to no other endpoint. This holds whichever endpoint sends it and whatever other messages are in flight.",
 ['inputs','histories','schedules'],"all sequences of joins, leaves and multicast sends up to a depth over a small set of labels, and all interleavings of several senders, receivers and the controller up to a preemption bound",
 NT,[BC,L,PL],[("routing loop over endpoints, then the controller's own endpoint",BC+" handle_message"),("client send / server send",L+" EndpointSender::send")],["EndpointReceiver::recv results"],
 [("endpoints","labels and channels of joined endpoints",BC)])
p('C02','A unicast message reaches exactly one matching endpoint',
 "A unicast message is delivered to exactly one of the endpoints whose label satisfies its expression, never to two and never to one that does not match. If some matching endpoints are gone the message still reaches one that is alive, and if none matches (and the message has no time to live) nobody receives it.",
 ['inputs','histories','schedules','crash_points'],"all sequences of joins, departures and unicast sends up to a depth, with every choice of departed endpoint, and all interleavings up to a preemption bound",
 NT,[BC,L],[("first match wins, dead candidates are skipped",BC+" handle_message")],["EndpointReceiver::recv results"])
p('C03','Messages between two endpoints arrive in order, none lost or repeated',
 "For every sending endpoint and every receiving endpoint, the messages sent successfully by one thread of the sender and routed to the receiver are received in the order sent, without loss, duplication or corruption, as long as both stay joined and the controller stays alive. This holds for any interleaving of threads sharing an endpoint, for any number of cloned senders, when kernel queues fill up, and for messages sent from the process that hosts the controller.",
 ['schedules','histories'],"all interleavings (up to a preemption bound) of two or three sending threads, a receiving thread and the controller, with queues so small that senders and the controller block",
 NT,[L,BC,PL,IM,EM],[("per-connection lock around the write",EM+" send"),("wake-up of the controller for its own messages",L+" send; "+IM+" wake/clear_waker"),("receive loop",PL+" IoHub::recv")],["EndpointReceiver::recv results"])
p('C04','A message arrives with exactly the content it was sent with',
 "The receiver of a message gets the payload bytes, every attached kernel object and every attached memory region exactly as sent: same count, same order, objects before and apart from regions, each referring to the same kernel object as the sender's. This holds for every payload length and every number of attachments the platform can transport in one message.",
 ['inputs'],"all payload lengths around alignment and buffer boundaries and all combinations of attachment counts up to the platform limit, relayed by the controller or sent from or to its process",
 NT,[EM,PL,L,MS],[("wire layout with padded selector and payload",PL+" encode_inner; "+EM+" from_local"),("objects and regions share one descriptor list",EM+" memory_region_count")],["Message::payload, objects, memory_regions after recv"])
p('C05','An endpoint receives only messages of its types, decoded faithfully',
 "An endpoint is handed exactly those messages routed to it whose type is one of the types it declared, as the variant of that type and with an equal value; messages of other types are skipped without affecting the following ones. A message of a declared type whose payload cannot be decoded yields a decode error for that message only.",
 ['inputs','programs','histories'],"all sequences up to a depth of messages of declared, undeclared and undecodable types, for single-type and derived multi-type endpoints, in the controller's process and elsewhere",
 NT,[MS,L,DV],[("type identifier compared before decoding",MS+" MessageBox::decode"),("derived dispatch over variants",DV),("skip loop in recv",L+" EndpointReceiver::recv")],["EndpointReceiver::recv results"])
p('C06','An unroutable message is kept for its time to live and delivered once',
 "A message with a time to live that matches no endpoint when it is sent is delivered as soon as a matching endpoint joins before that time has passed, once and in sending order among such messages, and never after it. A message without time to live, or one already routed to somebody, is never delivered to an endpoint that joins later.",
 ['histories','inputs'],"all sequences up to a depth of sends with different times to live, joins with different labels, time passing to just before, at and after the expiry, with modes unicast and multicast",
 NT,[BC],[("message buffer re-routed when an endpoint connects, purged when expired",BC+" run, maintain")],["EndpointReceiver::recv results, virtual clock"],
 [("message_buffer","waiting messages with their expiry",BC)])
p('C07','Concurrent joins elect one controller and end up on one bus',
 "When any number of endpoints join the same identifier at the same time, exactly one becomes controller, every join that may succeed does so in bounded time, and all of them are on one bus: a message sent after the joins reaches every other matching endpoint. An endpoint that is not allowed to become controller never does, but joins once somebody else has.",
 ['schedules','configurations'],"all interleavings up to a preemption bound of two to four joins, over all combinations of permission to become controller",
 NT,[L,PL,BC],[("look up, else bind the name, else retry",L+" Rule::join; "+PL+" look_up, register")],["join results, messages exchanged afterwards"])
p('C08','The bus re-forms by itself after the controller process dies',
 "If the process hosting the controller dies at any instant, the surviving endpoints, including ones blocked in or entering send or recv, form one new bus without any action of the application as long as one of them may become controller. Messages sent after that are routed as before, no message is ever received twice, and no surviving endpoint crashes or blocks forever.",
 ['crash_points','schedules'],"every instant (scheduling point) at which the controller's process can die in histories of joining, sending and receiving, combined with interleavings of the survivors up to a bound",
 NT,[L,PL,EM],[("reconnect under the write lock, guarded by an epoch",L+" send, recv"),("closed connection is an error or end of file",EM)],["survivors' send/recv results"],
 [("epoch","which incarnation of the connection failed",L)])
p('C09','The death of one endpoint affects nobody else',
 "If a process that does not host the controller dies at any instant (while joining, sending, receiving, or with unread messages or attachments in flight), the controller and all other endpoints keep working: messages among them are neither lost, duplicated nor reordered, new endpoints can join, and the dead endpoint's resources in the controller are released.",
 ['crash_points','schedules'],"every instant at which a joining, sending or receiving process can die, with interleavings of the others up to a bound",
 NT,[BC,PL,EM],[("failed write removes the endpoint",BC+" handle_message, detect_reachable"),("end of file removes the connection",PL+" IoHub::recv")],["survivors' results, descriptor counts of the controller process"])
p('C10','Only compatible endpoints with the right token are admitted',
 "A join succeeds only if its token equals the controller's and its version is compatible with it (same minor version while both majors are 0, else same major); otherwise the joiner gets the token or version error promptly and is never registered. An endpoint that was not admitted receives no message of the bus, and its refusal disturbs nobody.",
 ['inputs','histories'],"all combinations of tokens over a small alphabet (empty, prefix, equal, different) and of versions around the compatibility boundary, at any position of a join history, from library and hand-encoded peers",
 NT,[BC,L,PL,EM,'ipmb/src/errors.rs'],[("token and version compared before the acknowledgement",BC+" endpoint_connect"),("version in every message header",EM+" from_local"),("compatibility rule",L+" Version::compatible")],["join results, messages received by refused peers"])
p('C11','Timeouts are honoured',
 "A receive or a join called with a timeout returns by the time it has passed (a join may add its bounded handshake wait), not before unless it has a result or a definite error, and a receive without timeout never reports one. This holds for every timeout value including zero, fractions of a millisecond and very large ones, while unwanted messages keep arriving, while signals interrupt the wait, and while the endpoint reconnects.",
 ['inputs','schedules','fault_sequences'],"timeouts over a boundary set in virtual time, with sequences of unwanted messages, interrupted waits and reconnects enumerated",
 NT,[L,PL,IM],[("deadline handling in recv and join",L+" recv, Rule::join"),("epoll wait",IM+" wait")],["results and virtual time of recv and join"])
p('C12','Input from other processes cannot crash or corrupt an endpoint',
 "Whatever bytes and kernel objects another local process sends to the bus, over the bus connection or over a receiving channel, the controller and every other endpoint neither crash, nor access memory out of bounds, nor stop serving: at worst the message is dropped or the offending connection is closed.",
 ['inputs','histories'],"every truncation of valid messages, every header field set to each value of a boundary set, every attachment kind and count up to a bound, and pairs of such messages, sent to the controller and to endpoints",
 NT,[EM,PL,BC,L,PM],[("parsing of a received message",EM+" from_local"),("mapping of a received region",PM+" MemoryRegion::from_object"),("error handling of recv",L+" recv; "+BC+" run")],["process survival, memory-error detector, later messages"])
p('C13','Memory regions are byte-exact shared memory within their bounds',
 "Mapping any in-range part of a memory region gives exactly that part of its bytes, zero-initialised and of the size asked for, shared with every other handle of the region in any process, and the part written through one handle is what all others read. A range outside the region is refused with an error; it never yields memory outside the region, and never crashes.",
 ['inputs','histories'],"all sequences up to a depth of create, clone, map (all range forms with offsets and sizes from a boundary set around 0, pages and the region size), write, read and send over a bus",
 NT,[PM,UT,PL],[("page-aligned mapping with an adjusted start",PM+" MappedRegion::from_object"),("range conversion",UT+" range_to_offset_size")],["slices returned by MemoryRegion::map"])
p('C14',"A region's reference count equals the number of its handles",
 "At every quiescent moment the reference count of a memory region equals the number of live handles to it in all processes plus the copies in undelivered messages, whatever sequence of creating, cloning, sending (unicast, multicast, unroutable, waiting, failed), receiving and dropping led there, and in whatever order threads did so.",
 ['histories','schedules'],"all operation sequences up to a depth over one or two regions and a bus of up to four endpoints, and interleavings of concurrent clones, drops, sends and receives up to a preemption bound",
 NT,[PM,EM,BC],[("count in the region header",PM+" ref_count_inner"),("increment before, decrement after a failed write, decrement on receipt",EM+" send, from_local")],["MemoryRegion::ref_count"])
p('C15','The memory registry never hands out memory that is still in use',
 "An allocation from a memory registry is at least as large as asked for, and is never memory that another live handle, message or process still refers to; it is reused only for a request with the same tag. The callback given with an allocation runs exactly once, when that allocation is not in use any more (all other handles gone, noticed at a later registry call) or when the registry is dropped, and idle memory is released by maintenance after five seconds.",
 ['histories','inputs'],"all sequences up to a depth of alloc (sizes and tags from a small set), drop, clone, send, maintain and time steps around five seconds",
 NT,[MR,PM],[("reuse only with reference count one and equal tag",MR+" alloc_inner"),("release and callbacks",MR+" maintain_inner, Guard")],["regions returned, callback calls, ref_count"])
p('C16','Kernel objects are neither leaked, closed twice, nor inherited',
 "Every descriptor and mapping the library opens or receives is released exactly once, when its owner is dropped or its connection ends: after all handles of an endpoint are dropped and its peers are gone, nothing it opened is left, on error paths and for undeliverable messages too. No descriptor that is not the library's is closed, and none of the library's descriptors is inherited by programs the host process starts.",
 ['histories','crash_points','fault_sequences'],"descriptor and mapping accounting at every quiescent end of the histories, crash points and injected failures explored, by process",
 NT,[FD,PL,EM,PM,IM],[("owned descriptors",FD),("close-on-exec flags at creation",PL),("descriptors taken from control data",EM)],["descriptor table and mappings, by simulated process"])
p('C17','Label expressions mean what they say, also after transport',
 "For every label and every label expression, matching is the boolean value of the expression with each leaf read as 'the label contains this element' and with true, false, not, and, or having their usual meaning; labels are sets, whatever the order and repetition of insertions and removals. An expression or label that travels with a message or a join selects the same endpoints on the other side; expressions nested deeper than 1,000 levels may be refused on arrival but harm nobody.",
 ['inputs'],"all expressions up to a size over a small alphabet of elements (including empty, long and non-ASCII ones) against all labels, evaluated locally and by routing through a bus",
 "The unit tests check eight fixed expressions, each against one or two labels, and never after transport.",[LB,L],[("recursive evaluation",LB+" LabelOp::validate"),("set operations",LB+" Label")],["LabelOp::validate, Label, endpoints reached"])
p('C18','Buses with different identifiers are separate',
 "Endpoints that joined with different identifiers never exchange messages, never share a controller and never prevent each other from joining, however similar the identifiers are (prefixes, length, case, unusual characters). Endpoints that joined with the same identifier always share one bus.",
 ['inputs','configurations'],"all pairs from a boundary set of identifiers (empty, prefixes, lengths around the platform's name limit, embedded and non-ASCII characters), with sends in both directions",
 NT,[PL,L],[("identifier to socket address",PL+" identifier_to_socket_addr")],["join results, messages received"])
p('C19','Dropping a receiver ends reception only',
 "After an endpoint's receiver is dropped, its senders keep working, also across a change of controller, and messages are not queued for it: a unicast message goes to another matching endpoint or waits for one, never to the dropped receiver. Dropping all handles of an endpoint removes it from the bus, except that a process hosting the controller goes on serving the other endpoints.",
 ['histories','schedules'],"all sequences up to a depth of drop, send and controller death over a bus of three or four endpoints, in and outside the controller's process, and interleavings of the drop with traffic",
 NT,[L,BC,PL],[("receiver half closed",L+" EndpointReceiver::drop, reader_close"),("failed delivery removes the endpoint or leaves the message unrouted",BC+" handle_message")],["send and recv results of all endpoints"])
p('C20','The C interface behaves like the library and owns its handles cleanly',
 "Every sequence of C calls that respects the documented ownership has the effect of the corresponding library calls: same routing, contents, results mapped to their error codes, out-parameters written on success, and null or zero for absent attachments. Each handle releases what it owns exactly once, retrieving an attachment transfers it, getting one does not, and no such sequence reads or frees invalid memory.",
 ['programs','histories','inputs'],"all sequences up to a depth of the C calls on messages, attachments, regions, registries, labels and label expressions, and bus scenarios through the C calls",
 "There is no test of the C interface.",[FF],[("opaque boxed handles",FF+" opaque_type!"),("conversion of selectors, options and errors",FF)],["return codes, out-parameters, descriptor and memory accounting"])
p('C21','Receiving through the JavaScript interface loses and reorders nothing',
 "Each message that arrives at a JavaScript endpoint settles the oldest receive that is still pending, or is kept for the next one, so that receives see every message once and in order. A receive with a timeout that gets no message is rejected after it, closing rejects every pending receive and returns in bounded time even while messages keep arriving, and every receive is settled exactly once.",
 ['schedules','histories'],"all interleavings up to a bound of receive calls with and without timeout, message arrivals, timeout sweeps and close, with a stand-in for the JavaScript engine",
 "There is no test of the JavaScript binding.",[JS],[("queues of messages and of pending receives",JS+" LocalBuffer, delegate_receiver"),("receiving thread and close handshake",JS+" join, Receiver::close")],["promises created, resolved and rejected"],
 [("LocalBuffer","messages without receive, receives without message",JS)])
p('C22','Calls on a healthy bus always finish',
 "On a bus whose controller is alive and whose receivers keep receiving, every send, join, receive with a waiting message, clone and drop finishes, from any number of threads sharing an endpoint and in any interleaving; in particular a thread blocked in receive never keeps other threads from sending, and a wake-up is never lost. Signals delivered to the process change none of this.",
 ['schedules','fault_sequences'],"all interleavings up to a preemption bound of threads that send, receive, clone and drop on shared endpoints, with interrupted system calls injected at every blocking point",
 NT,[L,BC,PL,IM,EM],[("read-write lock around the connection",L+" rule"),("event counter to wake the controller",IM),("blocking writes",EM+" send")],["completion of every call; no deadlock"])
p('C23','The JavaScript interface behaves like the library',
 "Through the JavaScript interface, joining, sending, label expressions, unicast and multicast selectors and times to live mean what they mean in the library, and messages pass between both kinds of endpoints with data, objects and regions intact. Each buffer sent as a region becomes a region beginning with the buffer's bytes at the time of the call, and no memory still in use by a receiver is reused; mapping a region returns exactly the bytes asked for or throws. A refused call throws an Error and changes nothing, no call ends the process, and what the engine collects releases the descriptors and memory it owns.",
 ['inputs','operation_sequences','fault_sequences'],"all payloads, buffer sizes, attachments, mapping ranges, times to live and refused calls of boundary sets, and all sequences of label, buffer and message calls to a depth, with a stand-in for the JavaScript engine",
 "There is no test of the JavaScript binding.",[JS],[("selectors, messages and label expressions",JS),("reuse of regions for buffers",JS+" Sender::send"),("mapping and object values",JS)],["return values, thrown errors, messages at library endpoints, descriptors and mappings"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
