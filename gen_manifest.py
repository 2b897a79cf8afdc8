#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess
HOOK = ["439a044"]
T = {
 "C01": ("round-trip and differential property testing against a reference encoder", "rapid-generated value trees against an independent encoder; trusts that encoder."),
 "C02": ("grammar-based and mutation fuzzing against a reference parser", "generated, mutated, truncated and deeply nested documents against an independent parser; lenient inputs the format leaves open (leading zeros, duplicate keys, trailing bytes) are not judged."),
 "C03": ("generated torrent documents against a reference decoder; mutation fuzzing for panics", "documents with every combination of present, absent and mistyped keys; trusts the reference decoder."),
 "C04": ("metamorphic property testing of the info-hash against an independent encoder and SHA-1", "generated info dictionaries with unknown keys, nesting and binary strings; trusts the harness encoder."),
 "C05": ("generated hostile names and paths, run as an unprivileged user in a scratch tree, with a before/after snapshot as oracle", "path components from a hostile alphabet plus random bytes; Linux path rules only."),
 "C06": ("generated layouts and inconsistent metadata against a model of the file tree", "every generated consistent layout must open with exactly the listed files; inconsistencies are generated per kind."),
 "C07": ("model-based testing of the writer against a byte-level reference image", "piece and block histories over generated geometries (sizes up to some hundred KiB)."),
 "C08": ("fault injection on the storage layer (file-size limits, closed and read-only files) with an invariant over the history", "faults injected through real file descriptors at generated positions."),
 "C09": ("concurrent generated histories of the piece scheduler checked against its specification, also under the race detector", "schedules are those the Go scheduler produces, not enumerated; the session part runs whole downloads with prompt peers on a simulated network."),
 "C15": ("round-trip and differential testing of the wire codec against an independent encoder", "all message types with generated and boundary fields; the bit order of received bitfields is a known finding."),
 "C20": ("concurrent generated updates against sums, also under the race detector; displayed text parsed back", "percentage judged to within one point."),
 "C24": ("generated values and metadata; rendering parsed and compared with the value", "judges the presence, structure and order of what is shown, not its layout."),
 "C25": ("generated level and format names and records, captured standard error compared with a model", "level names as documented by the tool."),
 "C10": ("generated hostile peer sessions on a simulated network, with a byte-level oracle over disk and counters", "peer behaviours from a table of deviations per request; single- and multi-block pieces; fake clock."),
 "C11": ("structured fuzzing of the peer byte stream on a simulated network with panic, memory and termination oracles", "live memory bound 12 MiB + 16 x bytes received; not coverage-guided."),
 "C12": ("mutation-based property testing of the handshake on a simulated network against an independent decision rule", "answers complete within 0.7 s or not at all; reserved bits of the client not judged."),
 "C13": ("generated segmentations and delays on a simulated network; round trip of frames, time bounds on a fake clock", "frames up to 300 KiB, up to 8 per stream."),
 "C17": ("generated tracker answers served over a real loopback HTTP server, or trickling and stopping on a fake clock, against a reference decoder of the announce answer", "compact and dictionary peer lists, failures, faults of status, length and syntax; loopback only."),
 "C26": ("generated peer histories on a simulated network with a fake clock; the times of all client writes judged", "sessions up to a couple of hours of fake time."),
 "C27": ("generated failures of trackers and peers on a simulated network with a fake clock; the times of all dials, announces and messages judged", "up to half an hour of fake time, six peers and two trackers."),
 "C18": ("generated tracker histories (loss, delay, duplication, corruption, wrong ids) on a simulated UDP network against a model of the protocol", "fake clock; packets ordered by arrival time."),
 "C14": ("generated peer histories; every frame the client writes is judged against a model of the protocol state it had read", "two known findings excuse requests for unannounced pieces under their exact conditions only."),
 "C16": ("generated swarms of honest and faulty peers on a simulated network with a fake clock; downloaded files compared byte for byte with the original, also under the race detector", "up to some tens of pieces and a handful of peers; bit order of bitfields is a known finding."),
 "C19": ("generated tracker behaviours on a simulated network with a fake clock; every announce judged for timing and for figures against a model of what is stored", "intervals from negative to hours; figures judged against the window between the pieces stored before and after the announce was sent."),
 "C21": ("generated announce histories and peer lives; invariant over the history of open sessions and pool contents, also under the race detector", "maximum 1 to a few tens, overlapping and repeated peer lists from several trackers."),
 "C22": ("generated swarms cancelled at generated instants, with termination, leak and disk oracles, also under the race detector", "cancel instants on a fake clock plus event-triggered ones (at a dial, a read, a write, an announce)."),
 "C23": ("generated torrent files, options and directories against the built binary; exit status and output compared with a model", "run as an unprivileged user in a scratch directory; loopback tracker and peers."),
}
full = [subprocess.run(["git","-C","/repo","rev-parse",h],capture_output=True,text=True).stdout.strip() for h in HOOK]
ps=[json.loads(l) for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"python3 run.py --setup",
 "hooks":{"guard":"verif (Go build tag)","enable":"go test -tags verif","source_commits":full},
 "checks":[],"not_applicable":[]}
LEVEL={"C08":"fault_enumeration"}
for p in ps:
    i=p["id"]
    if i in T:
        t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":t,"level":LEVEL.get(i,"exploration"),"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
