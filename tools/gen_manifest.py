#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
DONE={
 'C01':"All join/leave/multicast sequences to depth 6 and all schedules up to the delay bound, on the real code.",
 'C02':"All join/leave/die/unicast sequences to depth 6 and all schedules up to the delay bound, on the real code.",
 'C03':"All schedules up to the delay bound of the listed sender/receiver shapes, with large and tiny kernel queues; all send/receive sequences to a depth.",
 'C04':"Every payload length of the boundary set and every attachment combination listed, by every route.",
 'C05':"All message-kind sequences to a depth for three receiver types; schedules to the delay bound.",
 'C06':"All send/join/leave/time sequences to a depth in virtual time; boundary times to live; schedules of races to the delay bound.",
 'C07':"All schedules to the delay bound of joins racing with each other, with a dying controller, and of endpoints that may not become controller.",
 'C08':"Every crash point (libc call boundary) of the controller process under the schedules of the listed shapes.",
 'C09':"Every crash point of a non-controller process in each role; silent deaths and full queues.",
 'C10':"All version pairs, token pairs and refusal histories listed, incl. hand-made joiners of other header versions.",
 'C11':"Every timeout of the boundary set in virtual time against every disturbance, bus state and reconnect listed; every point at which a signal can interrupt a wait; schedules to the delay bound.",
 'C17':"All expressions to a nesting depth on all labels over the listed elements, built, encoded and routed on a bus; all pairs of similar elements; all insert/remove sequences to a depth; nesting to 1,000.",
 'C18':"All pairs of the boundary set of identifiers; schedules of racing joins to the delay bound.",
 'C19':"All sequences of receiver/sender drops, sends, joins and a controller's death to a depth; schedules to the delay bound of drops and rejoins under traffic.",
 'C22':"All schedules to the delay bound of the listed shapes of threads sharing endpoints; all messages around the transport's limits; every point at which a signal can interrupt a waiting send.",
 'C12':"Every byte mutation, truncation and header-field boundary value of the real wire messages, every kind of foreign kernel object, and hostile peers in every role, against controller and receiver.",
 'C13':"All region sizes and map ranges of the boundary grid, all pairs of handles; every failing call in creation, mapping and cloning.",
 'C14':"All create/clone/send/receive/drop sequences to a depth over every kind of send; schedules of racing threads to the delay bound.",
 'C20':"All sequences of C calls and of C++ calls on messages, attachments, regions, registries, labels and expressions to a depth, with guarded memory; buses mixing C, C++ and Rust users; every error; schedules of C threads to the delay bound.",
 'C21':"All sequences of receives, arrivals, event loop turns, time and close to a depth on the real binding under a stand-in for the JavaScript engine; schedules to the delay bound.",
 'C23':"All payloads, buffers, attachments, mappings, times to live and refused calls of the boundary sets, and all sequences of label and buffer calls to a depth, on the real binding under a stand-in for the JavaScript engine.",
 'C16':"Descriptor tables of every process before and after every operation sequence to a depth; every failing call, descriptor shortages at every call, crash points and races; every descriptor close-on-exec.",
 'C15':"All alloc/drop/free/time/maintain sequences to a depth with boundary sizes and tags against an oracle of handles; two registries and transported regions.",
}
NOT={}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for i in ids:
    if i in DONE:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            technique="stateless model checking of the real code: exhaustive enumeration of operation sequences, schedules (delay-bounded), faults and virtual time under a controlled scheduler",
            level="model_checking",
            level_note=DONE[i]+" Assumes sequentially consistent memory and that std, third-party crates and the kernel are correct; bounds are in the evidence file."))
na=[dict(property=i,reason=NOT.get(i,"not built yet")) for i in ids if i not in DONE]
m=dict(version=1,setup_cmd="./mc/build.sh && ./ffi/build.sh && ./js/build.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the harness links the unmodified crate and interposes libc. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
