#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("round-trip over generated specifications", "Random search over consistent specifications of every section; comparison is bit-for-bit on every field. Trusts the comparison in harness/eq.h."),
 "C02": ("round-trip over generated specifications and doubles", "Random search incl. boundary and random-bit doubles (normal, subnormal, extreme exponents); NaN/Inf only restored or refused. Trusts harness/eq.h."),
 "C03": ("round-trip over generated specifications against a flat model", "Random search; the loaded specification is compared with the ordered nodes and elements of the saved one."),
 "C04": ("round-trip over generated specifications and files against a membership model", "Random search over specifications whose entities are linked to element blocks, and over 2.2 files."),
 "C05": ("differential: saved bytes read by an independent strict reader", "Random search; the reader in harness/ref_reader.h was written from the published format, not from the code."),
 "C06": ("differential: saved bytes read by an independent strict reader", "As C05, for 2.2."),
 "C07": ("differential: files of an independent writer loaded and compared", "Random search over content and layout freedoms; the writer in harness/ref_writer.h was written from the published format."),
 "C08": ("differential: files of an independent writer loaded and compared with a model of the regrouping", "As C07, for 2.2."),
 "C09": ("stateful: random chains of conversions against a model of what each step may change", "Random search over chains of up to a dozen conversions."),
 "C10": ("fuzzing: structure-aware mutation plus coverage-guided libFuzzer under sanitizers", "No memory error, undefined behaviour, abort, foreign exception or endless loop on any generated input; builds with and without assertions and extension. Memory is capped at 300 MB per load, beyond which std::bad_alloc is expected."),
 "C11": ("fault enumeration over generated files: every prefix, end of file and I/O error", "All cut positions of small generated files, sampled ones of larger files."),
 "C12": ("generated invalid variants against the documented exception", "Random search over all integers and strings in the version, type, size, byte order, element type and tag count fields, loading and saving."),
 "C13": ("generated consistent and damaged specifications against an independent consistency predicate", "The predicate in harness/consistent.h decides which specifications are consistent; changes whose consistency the documentation leaves open are only checked for crashes."),
 "C14": ("generated arbitrary specifications: validate, save under sanitizers, load, compare", "Random search with up to a dozen changes to a consistent specification."),
 "C15": ("metamorphic: inserted unknown sections and reordered sections", "Random search over inserted names, contents and places, with and without the extension."),
 "C16": ("fault enumeration: failing streams and full devices at every position of generated files", "Failure is injected through RLIMIT_FSIZE, unwritable paths, /dev/full where present and stream buffers that stop accepting; trusts that these behave like real devices."),
 "C17": ("metamorphic: random stream state, locale and buffer behaviour", "Random search over formatting flags, precision, fill, locales with grouping and decimal comma, buffer sizes, seekability and offsets."),
 "C18": ("stateful: call histories against single calls; concurrent calls under ThreadSanitizer", "Random histories of loads and saves, and threads that share a specification. Schedules are those the machine produces; ThreadSanitizer reports races independent of the interleaving observed."),
 "C19": ("generated numbers and files against the documented table", "All supported types, boundary and random other integers, all readers and writers."),
 "C20": ("round-trip, differential and build-to-build exchange over generated curves and patches", "Random search with the extension on, off, and with both builds linked into one program."),
 "C21": ("differential: output of the inspection program against the generated content", "Runs the real example under sanitizers and parses what it prints."),
 "C22": ("model-based: binding compiled against a recording stand-in for nanobind and exercised attribute by attribute", "Python and nanobind are not available here, so the interpreter side is not exercised: the stand-in records what the binding registers and calls it with generated values."),
 "C23": ("round-trip and differential over generated sparse tags with a memory bound", "Peak of operator new during loading is at most 200 times the file size plus 1 MB (below 50 times on the shipped tree)."),
 "C24": ("idempotence over mutated and fuzzed inputs, plus coverage-guided libFuzzer", "Random search; every accepted input is saved and loaded twice."),
 "C25": ("invariant over everything loaded from mutated and fuzzed inputs, plus coverage-guided libFuzzer", "Random search; the invariant is checked on every loaded specification."),
 "C26": ("fault enumeration: every allocation of generated calls fails in turn, against the call without faults", "Up to 60 allocations one by one and together with all later ones; samples beyond that. Covers operator new (all allocations of the library), file descriptors, and the state of later calls."),
 "C27": ("metamorphic: the work for 96 times the content against the work for the content", "Work is counted exactly (basic blocks executed in the library, bytes moved, allocated and transferred), so the result does not depend on the machine; the bound of 8 times the proportional work leaves room for logarithms and constants."),
 "C28": ("generated files with the content of one section shortened against refusal", "Every place at which a section's content can end early (up to 60 per section, sampled beyond), in text and binary; in binary only sections that are the last of their name."),
 "C29": ("round-trip of specifications with tags beyond 32 bits, or refusal", "Random search over tags around all powers of two that matter, in every place of a specification that holds tags."),
 "C30": ("invariant: snapshots of the process and its surroundings before and after each call", "Random search over calls and surroundings. Only what the snapshot contains is seen: files in and around the working directory, environment, locales, floating-point mode, signals, limits, timers, descriptors, threads, children, standard streams, handlers, rand()."),
}
LEVEL = {"C11": "fault_enumeration", "C16": "fault_enumeration", "C26": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks use the public interface only. Known and fixed findings are in KNOWN_FINDINGS."}
for p, (t, n) in T.items():
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing / fuzzing: " + t,
                        "level": LEVEL.get(p, "exploration"), "level_note": n})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
