#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties in DONE."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIPE = "real requests through an in-memory connection, handler trace and wire bytes judged by a reference model"
T = {
 "C01": ("runtime monitoring: randomized route tables and requests against a reference matcher", PIPE),
 "C02": ("runtime monitoring: randomized overlapping routes against a reference matcher", PIPE),
 "C03": ("runtime monitoring: captured variables compared with a reference matcher", PIPE),
 "C04": ("runtime monitoring: random construction programs compared with the flat route list", PIPE),
 "C05": ("runtime monitoring: rejected requests, handler and wire status", PIPE),
 "C06": ("runtime monitoring: randomly composed routers against an interpreter of their composition", PIPE),
 "C07": ("runtime monitoring: hyperlinks compared with the reference tree", PIPE),
 "C08": ("runtime monitoring: what handlers and filters see of random targets against an independent decoder", PIPE),
 "C09": ("runtime monitoring: differential runs of target forms", PIPE),
 "C10": ("runtime monitoring: round trips of form-encoded maps and an independent parameter decoder", PIPE),
 "C11": ("runtime monitoring: random bodies, framings, fragmentations and read patterns against the bytes sent", PIPE),
 "C12": ("runtime monitoring: random pipelined conversations, handler log and wire responses against a sequential model", PIPE),
 "C13": ("runtime monitoring: random operation sequences, every view checked against a byte-string model", "library calls checked after each step against a byte-string model"),
 "C14": ("runtime monitoring: random histories against a type-keyed map, drop counting", "library calls checked after each step against a model map; drops counted"),
 "C15": ("runtime monitoring: random operation sequences against a byte-string map", "library calls checked after each step against a model map"),
 "C16": ("runtime monitoring: random paths against an independent lexical resolver", "library calls compared with an independent lexical resolver"),
 "C17": ("runtime monitoring: every registered extension plus random ones against the type registry file", "exhaustive over the registry file, sampled for unregistered extensions"),
 "C18": ("runtime monitoring: random files, failures and senders, bytes on the wire against what the system reads", PIPE + "; files in a scratch directory, permission failures as an unprivileged user"),
 "C19": ("runtime monitoring: random response programs run by the server, wire responses against a model", PIPE),
 "C20": ("runtime monitoring: random stream programs, short writes and injected write faults, wire bytes and reported results against a model", PIPE + "; write faults injected at random offsets"),
 "C21": ("runtime monitoring: instrumented filter stacks, every call and the wire bytes against a piece-path model", PIPE + "; every filter call logged with per-request sequence numbers"),
 "C22": ("runtime monitoring: instrumented filter stacks that abort, calls, reported results and wire bytes against a piece-path model", PIPE + "; every filter call logged with per-request sequence numbers"),
 "C23": ("runtime monitoring: instrumented context filter stacks, every view of the request against a fold of the edits", PIPE + "; every filter and handler view logged"),
 "C24": ("runtime monitoring: random servers, handlers, filters and rejections, every response header against a model", PIPE),
 "C25": ("runtime monitoring: random nested values and content factories, wire responses against an independent evaluation", PIPE),
 "C26": ("runtime monitoring: random connection histories in memory and over TCP, Connection headers against an exact count of open connections", "In-memory histories drive the real ServerInstance through hyper's Handler interface; the TCP part uses real workers and sockets on loopback. Idle timeouts are only checked with seconds of tolerance."),
 "C27": ("runtime monitoring: concurrent client storms over TCP with unique tokens, exactly-once and no-mix-up oracle over the recorded run, meeting handlers for real concurrency", "Schedules are those the machine produces under load and jitter; handlers record, clients compare."),
 "C28": ("runtime monitoring: panics injected at every stage of handling, in memory and over TCP, responses and later behaviour compared", "A panic in hyper itself is C30's known finding."),
 "C32": ("runtime monitoring: configured addresses, thread counts and secure streams probed from outside, address forms against std's", "Loopback only; wrapped streams are checked with a cipher of ours, no TLS library is involved."),
 "C29": ("sanitizers: AddressSanitizer over the workloads of all properties, ThreadSanitizer over the TCP ones, Miri over small in-memory ones, plus monitors for invalid strings and double drops", "Miri is slow here (tens of cases per part and minute) and runs no TCP; the sanitizers see memory, not the validity of values, for which the strings handed out are checked."),
 "C31": ("runtime monitoring: differential runs of random routers and response programs against mocks and the real server", "Multipart readers of mock bodies are outside (mock bodies are documented as non-functional)."),
 "C33": ("runtime monitoring: random typed compositions built by random programs, every part's own record of what it was told against a flat description", "library calls; 18 router types composed up to three deep; parts count themselves"),
 "C34": ("runtime monitoring: random operation sequences on the route state against a list of segments", "library calls checked after each step against a model cursor"),
 "C35": ("runtime monitoring: differential runs of the same handlers in every form, calls and wire bytes compared", PIPE),
 "C36": ("runtime monitoring: random contents and errors converted, sent and recovered, against the bytes and errors that went in", "library calls; recovered responses through an in-memory connection"),
 "C37": ("runtime monitoring: content types written in every form of the macro against the parsed text, as values and on the wire", PIPE),
 "C38": ("runtime monitoring: a counting allocator and the list of open files, over repeated and over varied cases of all other properties", "memory is counted per thread, so cases that run threads of their own take part only in the TCP section, which counts globally; only growth that goes on is a violation"),
 "C30": ("runtime monitoring: mutated and fragmented byte streams against a strict request parser; panics and framing monitored", PIPE),
}
DONE = sorted(T)
NA = []
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": T[i][0],
  "level": "exploration", "level_note": T[i][1]} for i in DONE]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA + [{"property": i, "reason": "check not built yet"} for i in ids if i not in DONE and i not in [n["property"] for n in NA]]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
