#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the claimed list"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitoring: exactly-once/order/identity oracle over real sockets", "Real kernel sockets, all network and framing pairs, concurrent producers; judges the executions run. Trusts the loopback kernel transport."),
 "C02": ("runtime monitoring: offline history checker over a monitoring Connector", "Every Write/Close and Send/End event is recorded and checked against exactly-once, real-time FIFO and one Close."),
 "C03": ("runtime monitoring with fault injection: every byte offset, error kind and driving mode enumerated", "All single-fault offsets of three-frame streams are enumerated; pairs and random plans sampled."),
 "C04": ("runtime monitoring in virtual time (testing/synctest) with failure and recovery scripts", "Delivery instants are exact in virtual time; deadlocks are detected logically; crashes are captured by the supervisor."),
 "C05": ("Go race detector over concurrent workloads of all API pairs", "Happens-before detection: a race is found when both accesses are executed, whatever their real timing."),
 "C06": ("runtime monitoring: exhaustive severities, monitored output, reference context model", "All 24x8 minimal priorities x 8 severities and all derivation orders to a depth; contents compared with a reference."),
 "C07": ("runtime monitoring: generated values judged by an independent strict RFC 5424 reader", "Boundary-biased generation over all constructors, setters and channels."),
 "C08": ("runtime monitoring: round-trip oracle over generated messages", "Generated messages; field-by-field and byte identity."),
 "C09": ("runtime monitoring: mutation fuzzing with crash, input-hash and progress oracles", "Mutated, spliced and truncated inputs under all transports; input hashed before and after."),
 "C10": ("runtime monitoring: grammar-based generation against an independent reader", "Grammar derivations of RFC 5424 with their field assignment as oracle."),
 "C11": ("runtime monitoring: scripted readers over all cut positions", "Every cut of short streams and random cuts of long streams."),
 "C12": ("runtime monitoring: hostile peers beside well-behaved connections", "Expected per-connection result sequences; crash capture."),
 "C13": ("runtime monitoring: scripted connection endings with read-call budget and close accounting", "Every end kind at every offset of short streams; accept failures scripted."),
 "C14": ("runtime monitoring: End injected at many moments, goroutine census", "Stack census of library goroutines after End; listener and connection Close accounting."),
 "C15": ("runtime monitoring: generated Go values against a reference encoder", "Types built with reflect plus hand-written families; output read back by an independent reader."),
 "C16": ("runtime monitoring: identity oracle over generated elements and registries", "Byte identity of unclaimed elements; registrations in child processes."),
 "C17": ("runtime monitoring: exhaustive consistent/inconsistent values and generated elements", "Independent recogniser of the definition."),
 "C18": ("runtime monitoring: exhaustive codec spaces", "All facilities, severities, wire values, and all short texts over an alphabet."),
 "C19": ("runtime monitoring: re-encoding of every earlier value after every derivation; race detector", "Random derivation trees, concurrent derivations, receiver buffers."),
 "C20": ("runtime monitoring: path state before and after in scratch directories", "All occupant kinds for both socket types."),
 "C21": ("runtime monitoring: independent plain sockets as destinations", "All network names and address forms on loopback."),
 "C22": ("runtime monitoring: independent timestamp arithmetic", "Boundary and random instants and zones over all setters; fixed clocks in virtual time."),
 "C23": ("runtime monitoring: one print, one frame over a monitored output", "Generated prints, concurrent loggers, call-site comparison."),
 "C24": ("runtime monitoring: descriptor, goroutine, live-memory, allocation and time accounting", "Counted before and after repeated scenarios with the collector off; bounds far above linear cost and far below quadratic cost."),
 "C25": ("runtime monitoring: exactly-once/order/identity oracle over transports, connectors and listeners of the harness", "Eight transports of different kinds, TLS, pipes, files, filters and datagram sockets, with the cut and fault machinery of C03, C11 and C01."),
 "C26": ("runtime monitoring: codecs with known faults given to the test helpers", "Every helper is judged against the known rightness of generated codecs."),
}
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
have = set(re.findall(r"func Test(C\d\d)\(", "".join(open(os.path.join(HERE, "harness", f)).read() for f in os.listdir(HERE + "/harness") if f.endswith(".go"))))
checks = []
for p in props:
    if p in have:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": T[p][0],
            "level": "fault_enumeration" if p == "C03" else "exploration", "level_note": T[p][1]})
m = {"version": 1,
     "setup_cmd": "python3 check.py C18 build",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in have],
     "notes": "No hooks in /repo: Connector, WriteCloser, ticker, Transport, Listener, DataReader and the clock are all injectable through the public API, so the monitors are implementations of the library's own interfaces."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
