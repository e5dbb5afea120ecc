#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties (run by hand when they change)."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {
 "C01": ("runtime monitor: write/reopen of generated definitions compared with a model", "exploration"),
 "C02": ("runtime monitor: last-write map over random write histories, bit-exact, all reading methods", "exploration"),
 "C03": ("runtime monitor: file bytes compared with an independent reference encoder", "exploration"),
 "C04": ("runtime monitor: foreign conforming files from an independent encoder, every reading method", "exploration"),
 "C05": ("runtime monitor: every subset of slabs written, the rest must hold the fill value after close", "exploration"),
 "C06": ("runtime monitor: differential histories (one write removed / rejected writes added)", "exploration"),
 "C07": ("runtime monitor: contract model of the writer as oracle of every call, file and state unchanged on error", "exploration"),
 "C08": ("runtime monitor: stateless reference as oracle of long read sequences", "exploration"),
 "C09": ("runtime monitor: field-aware hostile files under memory budget, CPU limit, overflow checks, panic/abort monitors", "exploration"),
 "C10": ("runtime monitor: independent strict decoder as oracle of damaged headers", "exploration"),
 "C11": ("runtime monitor: enumeration of the cuts of a file, strict decoder as oracle", "fault_enumeration"),
 "C12": ("runtime monitor: ordered model checked after every edit of random histories", "exploration"),
 "C13": ("runtime monitor: ordered-map model checked after every edit of random histories", "exploration"),
 "C14": ("runtime monitor: exhaustive characters and lengths at every entry point, independent predicate", "exploration"),
 "C15": ("runtime monitor: exact 128-bit size model checked after every edit", "exploration"),
 "C16": ("runtime monitor: system-call fault injection at every write and seek", "fault_enumeration"),
 "C17": ("runtime monitor: system-call fault injection at every read and seek", "fault_enumeration"),
 "C18": ("runtime monitor: recorded write log, file image rebuilt and checked at every crash point", "fault_enumeration"),
 "C19": ("runtime monitor: definitions around the limits and sparse files, reference encoder as oracle", "exploration"),
 "C20": ("runtime monitor: pairs of equivalent histories, files compared byte for byte", "exploration"),
 "C21": ("runtime monitor: copies through the public interface compared byte for byte", "exploration"),
 "C22": ("runtime monitor: all getters compared with one model", "exploration"),
 "C23": ("ThreadSanitizer, Miri and a result monitor over concurrent and interleaved sessions", "exploration"),
 "C24": ("AddressSanitizer, MemorySanitizer, Miri and a counting allocator over the workloads of all monitors", "exploration"),
 "C26": ("runtime monitor: bytes transferred (system-call interposition) and peak memory (counting allocator) of every call on large sparse files", "exploration"),
 "C27": ("runtime monitor: == on pairs which differ in at most one detail, compared with a model", "exploration"),
 "C28": ("runtime monitor: content of every error compared with an independent decoder and models, injected system errors", "exploration"),
 "C25": ("runtime monitor: directory and descriptor snapshots around every call", "exploration"),
}
N = {
 "exploration": "Held on every generated case of the run (the evidence counts cases, distinct cases and the events the monitor judged); sampling, not a proof. Trusts the model/reference codec of the harness, written independently of the library and cross-checked with SciPy.",
 "fault_enumeration": "For each generated history or file, every fault or crash point is enumerated (sampled only beyond a size limit); the histories themselves are sampled. Trusts the harness model and the interposition of the C library calls.",
}
X = {
 "C11": "For each generated file every cut is enumerated (up to 1500 positions, borders and random ones beyond); the files are sampled. Trusts the strict decoder of the harness.",
 "C14": "Every Unicode scalar value in first and later position, every ASCII pair and every length to 300 bytes at the entry points: exhaustive on these, sampled on longer combinations.",
 "C26": "Held for every call measured (the evidence counts them); the bounds leave a factor of 4 on the bytes and 8 on the memory, plus constants, so that buffering is allowed. Trusts the interposition of the C library calls (a memory mapping would only be seen as memory).",
 "C23": "Schedules are those the system produced under injected yields and pauses, and Miri's seeds; a data race on an executed path is reported by ThreadSanitizer or Miri. Trusts these tools.",
 "C24": "Violations on executed paths only; trusts the sanitizers and Miri. Leaks are judged by a counting allocator over repeated sessions and by Miri.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "bash run.sh %s quick" % i,
   "thorough_cmd": "bash run.sh %s thorough" % i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": T[i][0], "level": T[i][1],
   "level_note": X.get(i, N[T[i][1]])} for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo: the monitors use the public interface and interpose on the C library calls of their own process. known_findings.txt lists the defects found and repaired.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
