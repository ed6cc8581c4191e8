#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json
T = {
 "C01": ("round-trip monitor over generated values of about 500 registered types, every decoding entry point", "values, modes and unknown-field policies sampled; equality judged on independent descriptions of the values"),
 "C02": ("byte-for-byte comparison of every serialisation entry point with an independent reference encoder", "values sampled; the reference encoder is written from the documentation"),
 "C03": ("online comparison of reading sessions with an independent reference parser", "inputs and sessions sampled, all strings of up to 2 bytes enumerated; ten kinds of reader"),
 "C04": ("differential monitor: real decoder against an independent reference decoder on valid, equivalent, damaged and garbage bytes", "inputs sampled (structured, mutated and random); acceptance, value and end position compared"),
 "C05": ("differential monitor over structurally edited messages (reordered, repeated, dropped, unknown fields) against the reference decoder", "messages and edits sampled; error kinds compared for single faults"),
 "C06": ("panic, crash, stack, reader-call and CPU monitors over hostile inputs and random call sequences", "inputs sampled; stack judged on 2 MiB threads, work by reader calls and CPU time"),
 "C07": ("truncation at every byte of generated encodings, monitored through every reader and entry point", "encodings sampled; all cuts of short ones, sampled cuts of long ones"),
 "C08": ("limit monitor: needs computed by the reference decoder, decoding at exactly the need and one below", "messages sampled; Context driven against a counter model"),
 "C09": ("counting allocator around reading inputs that declare more than they hold", "peak and largest request per call against a fixed multiple of bytes received"),
 "C10": ("counting allocator around single calls", "calls counted exactly for non-owning types; owning types bounded by the value's need"),
 "C11": ("address monitor over decoded values, and agreement of both styles", "every string and byte slice of each value located in the input"),
 "C12": ("concatenated messages over instrumented readers", "stream and reader positions compared after each message"),
 "C13": ("schema pairs checked against the mapping of reference values", "pairs stand for the documented changes; values sampled"),
 "C14": ("read-modify-write monitored by comparing message trees", "messages and edits sampled"),
 "C15": ("online comparison of skipping sessions with the reference parser", "inputs and sessions sampled"),
 "C16": ("model-based monitoring of blob handles against a model file", "operation sequences sampled; ten kinds of reader"),
 "C17": ("model-based monitoring of blob writing against a model array", "operation sequences sampled"),
 "C18": ("comparison of padded, interrupted and ended streams with the reference parser, by elements and by type", "streams sampled; graceful end tried at sampled cuts"),
 "C19": ("fault and delivery injection in instrumented readers, failing every n-th call in turn", "messages sampled; every read call of a message failed once"),
 "C20": ("fault injection in instrumented writers, failing every n-th call in turn", "messages sampled; every write call failed once"),
 "C21": ("domain monitor: enumerated and sampled wire values against the definition of each domain", "8/16-bit integers, chars in blocks and type bounds enumerated; the rest sampled"),
 "C22": ("single-fault injection with predicted kind, details, path and positions", "messages and faults sampled; predictions by the reference decoder"),
 "C23": ("copy monitor: copied streams compared by bytes and by re-reading", "streams sampled; ten kinds of reader"),
 "C24": ("comparison of calls alone, interleaved, repeated and in parallel threads; ThreadSanitizer", "call sets and schedules sampled"),
 "C25": ("AddressSanitizer, MemorySanitizer and Miri over all workloads, heap-balance, drop-balance and value-validity monitors", "workloads sampled; Miri on the smaller ones; std not instrumented for AddressSanitizer"),
 "C26": ("metamorphic monitor over equivalent re-encodings", "messages and re-encodings sampled"),
 "C27": ("all 256 tags through every writing call, with and without debug assertions", "tags and calls enumerated; prior states sampled"),
 "C28": ("integer codec compared with its definition", "dense around powers of two, sampled elsewhere; all widths"),
 "C29": ("virtual streams of up to 2^64 bytes read through seeking, plain and refusing readers against the reference parser", "streams sampled; content of giant blobs mostly one repeated byte"),
 "C30": ("outcomes compared between this machine and Miri running as 32-bit (i686) and big-endian (s390x) machines; model monitors of pointer-sized integers and of blobs beyond 4 GiB", "inputs sampled; Miri allows some hundred calls per run"),
 "C31": ("sequences of refused messages monitored: position, depth and remaining fields after each refusal against the reference parser", "sequences sampled; one or two faults per message"),
 "C32": ("probe types with a different encoding for every hook record each call made by the library; bytes, values and calls compared online with a model of the containers; injected failures", "types and values sampled; the order of finishing calls not compared"),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash /verif/run.sh build",
 "checks": [
  {"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
   "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in props if p in T],
 "not_applicable": [{"property": p, "reason": "check not built yet (work in progress)"} for p in props if p not in T],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
