#!/usr/bin/env python3
"""Writes MANIFEST.json; the prose per check lives here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'runtime monitoring: '
CHECKS = {
 'C01': ('exploration', T + 'specification decoder of each protocol compared online with the real unpackers, under ASan/UBSan',
         'Held on the generated streams, fragmentations and configurations; trusts the reference decoder in frame.cpp and that boost::asio::async_read calls the completion condition as documented.'),
 'C02': ('exploration', T + 'hostile byte streams against a specification decoder, under ASan/UBSan',
         'Held on the generated byte streams and fragmentations; intra-object overreads are seen only through the delivered bytes.'),
 'C03': ('exploration', T + 'reference framing compared with every packing overload at and around all limits, under ASan/UBSan',
         'Held on the generated sizes, overloads and configurations.'),
 'C08': ('exploration', T + 'online state machine over every callback of every link, a guard around all user work (nothing during or after the close notification), conservation of links at the end of each service, ASan, perturbed schedules',
         'Held on the executed schedules; the guard applies to configurations without delayed closing, as documented.'),
 'C09': ('exploration', T + 'a model of the pool compared after every operation of generated histories; concurrent histories with ownership, uniqueness, capacity and conservation monitors; canaries in every object; state of every socket at the moment it is reused in live servers; ASan/UBSan, perturbed schedules',
         'Held on the executed histories and schedules; the pool is driven through its protected interface by a test object, live servers add the real sockets.'),
 'C10': ('exploration', T + 'a raw socket server sees every byte of every link and breaks links in all ways; the accounting of what was written or reported until each close predicts where the next link must resume; retry delays, retry counts and attempts after the end are watched',
         'Held on the executed break sequences and schedules; single sender per flow, no buffer overflow (messages are accepted with can_overflow).'),
 'C11': ('exploration', T + 'activity guard in every callback (allowed only between start and stop), counting of threads, service and finalisation notifications, io_context references against the objects known to exist, traffic and timers after every start and every run time change, natural ends; perturbed schedules, ASan',
         'Held on the executed histories and schedules; the thread number is observed as the number of functions that really run at the same time.'),
 'C12': ('exploration', T + 'a model of every timer updated by every operation and compared online with every callback (time, identity, number, overlap, is_timer), with expiries piled up by blocking the thread; parallel self-driving timers under perturbed schedules; user timers of sockets against the close notification; ASan',
         'Held on the executed histories and schedules; lateness is not judged, only that a started timer fires at all.'),
 'C13': ('exploration', T + 'links on both sides to plain peers which are silent, fall silent, stall, send heartbeats, messages or both as sparsely as allowed, or write to a receiver that is held up; every end of a link and everything the peers received is judged by the clock against what the peers wrote and when, with tolerance for the second granularity and a gauge for disturbed runs; ASan',
         'Held on the executed histories; a dead link is given the limit, one further interval and some seconds of slack; a live one is only judged while the process itself is not held up.'),
 'C14': ('exploration', T + 'closing monitor with a stuck-state oracle under shutdown storms, stops under load, cooperative, silent and flooding peers; byte accounting of everything written before a graceful shutdown',
         'Held on the executed schedules; bounded time means the configured limit plus slack, judged with progress-based waiting.'),
 'C15': ('exploration', T + 'every synchronous call is logged with its start, end, argument and result; the raw peer records what arrived, a stuck-state oracle judges calls that never return, and each received message is accounted for to exactly one synchronous receive or handler, under cut links, withdrawals, refusing peers, service stops and perturbed schedules; ASan',
         'Held on the executed histories and schedules; "returns" is judged by progress of the whole process, the lower bound of a time-out by the clock.'),
 'C16': ('exploration', T + 'every datagram between library and raw sockets is registered before it is sent and accounted for (content, boundaries, order, sender address, destination) when it arrives, with unreachable destinations, impossible sends, peers that vanish and return, foreign and empty datagrams; ASan, perturbed schedules',
         'Held on the executed histories and schedules; the number of datagrams on their way to one receiver is bounded so that the kernel drops none; loopback and unix-domain only.'),
 'C18': ('exploration', T + 'model-based monitor (byte string) after every operation, under ASan/UBSan, with allocation accounting',
         'Held on the generated operation sequences.'),
 'C19': ('exploration', T + 'linearizability checking of recorded concurrent histories, a sequential model with byte accounting, ThreadSanitizer',
         'Held on the recorded histories (up to 4 threads, up to 25 operations each history).'),
 'C04': ('exploration', T + 'self-describing messages and an online monitor on every handler, plus conservation check at quiescence, under ASan, perturbed schedules, fragmented reads and stalled receivers',
         'Held on the executed schedules; delivery is judged at quiescence, thread interleavings are sampled, not enumerated.'),
 'C05': ('exploration', T + 'progress monitor with a stuck-state oracle (service threads provably keep running other handlers while the condition stays false), perturbed schedules',
         'Held on the executed schedules; a wake-up that is only late is not reported.'),
 'C06': ('exploration', T + 'online monitor of handler concurrency, order against the unpacker output, refusals and what the synchronous handler leaves',
         'Held on the executed schedules and handler behaviours.'),
 'C07': ('exploration', T + 'model of the send queue compared after every operation; live links with stalled receivers and invariants checked at every read and send',
         'Held on the executed operation sequences and schedules; the bound for several concurrent senders is one message per sender.'),
 'C17': ('exploration', T + 'conservation check of all counters against independently counted messages and bytes at quiescence',
         'Held on the executed workloads.'),
 'C21': ('exploration', T + 'scripted proxies which compare every request byte for byte with the protocol (and look for anything sent before the answer), then grant, refuse, answer malformed or truncated or not at all, in random fragments and coalesced with the data of the target, over several reconnections; granted links are checked as transparent in both directions, the others must never be connected and must be closed; ASan, UBSan',
         'Held on the executed negotiations (random targets, users, answers, fragmentation).'),
 'C24': ('exploration', T + 'log of notifications compared with accepted messages and order',
         'Held on the executed schedules.'),
 'C25': ('exploration', T + 'accounting of every accepted message (written, failed, pending, discarded) after links broken at random moments; model-based queue check',
         'Held on the executed schedules.'),
 'C26': ('exploration', T + 'every read the socket starts is set online against the requests made (exactly equal in the exact modes), every parse against the outstanding read and the unpacker installed, and every message against the stream the peer wrote, through several unpackers per link, with requests from handlers, posted calls, other threads, held back or greedy, under perturbed schedules; stuck-state oracle for lost requests; ASan',
         'Held on the executed histories and schedules; TCP (UDP passive receiving is one of the units of C16).'),
 'C27': ('exploration', T + 'plain clients which come, chat, leave, misbehave, are one too many or are refused, in random sequences with listening stopped and started, the service restarted and accept() failing (injected); after every step every client has to be served (an echo equal byte for byte to what it sent) or dropped as the limit says, the members, ids and statistics of the server have to be those of the connected clients; ASan',
         'Held on the executed sequences; limits up to 10 clients, up to 20 pre-created acceptances.'),
 'C28': ('exploration', T + 'oracle over captured log output and exactly sized buffers, under ASan/UBSan',
         'Held on the generated texts, buffer sizes and threads.'),
}
NA = {
 'C29': 'Reliable UDP needs the KCP sources (ikcp.h), which are neither in the repository nor installed, so this code cannot be compiled and no execution can be monitored.',
}
EXTRA_NA = 'Runtime monitoring applies to this property, but no check of it has been built yet (the time went into the other properties first); nothing is claimed.'
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo are needed: the library is header-only and is observed through its own extension points and link-time wrapping. fix: commits in /repo are listed in known_findings.txt.'}
for p in props:
    if p in CHECKS:
        l, t, n = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p, 'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, EXTRA_NA)})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
