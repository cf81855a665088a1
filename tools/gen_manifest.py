#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
DISK = "deterministic simulation: seeded disk world with fault injection"
TRUST = ("Seeded search, not a proof: no violation in the runs made. Trusts the simulator's models. "
         "One seed is one execution; every violation comes with a minimised replay file. ")
T = {
 "C01": (DISK + ", crash and hang detection", "Every delivered image is parsed on a 2 MiB thread and everything returned is walked; panics, aborts, stack overflow, hangs and over 1 GiB of heap are violations."),
 "C02": (DISK + ", reads cut at every or many points", "Every cut point of files up to 220 (thorough: 1200) bytes, sampled structure-aware cuts above."),
 "C03": (DISK + ", judged by a reference decoder's length rule", "Length fields are damaged, and content is grown or shrunk inside them, at every nesting depth."),
 "C04": (DISK + ", outcomes before and after damage compared", "Differential: the crate against itself under damage inside one attribute."),
 "C05": (DISK + ", refinement against a reference decoder", "Every slot and lookup of each accepted pool is compared with the reference; refusals of well-formed pools are violations too."),
 "C06": (DISK + ", refinement against a reference decoder", "Header, members, simple and opaque attributes are compared; refusing a well-formed file is a violation."),
 "C07": (DISK + ", refinement against a reference decoder", "Every instruction, offset, switch table, exception table and limit is compared."),
 "C08": (DISK + ", refinement against a reference decoder", "All annotation attributes are compared, down to the nesting the generator makes (16)."),
 "C09": (DISK + ", refinement against a reference decoder", "Every frame is compared field by field."),
 "C10": (DISK + ", refinement against a reference decoder", "Every table entry is compared field by field."),
 "C11": ("deterministic simulation: interleaved pool clients with retries and crashes, refinement against a list model", "Histories of up to 200 steps over pools of every origin."),
 "C12": ("deterministic simulation: interleaved pool clients while space runs out, refinement against a list model", "Most runs start a few slots below the 65535 limit."),
 "C13": ("deterministic simulation: interleaved pool clients, iteration compared with a list model", "Iterations at arbitrary points of histories, abandoned midway or continued past the end."),
 "C14": ("deterministic simulation: real threads under a seeded scheduler with preemption inside the parser", "Switches happen at edges the compiler marks in the crate; hash seeds and clocks are the simulator's."),
 "C15": (DISK + " and a metered heap", "The bound is 400 bytes per input byte plus 88 KiB; the largest use seen is in the evidence."),
 "C16": (DISK + " and a metered heap", "Net heap growth of repeated parses must be zero, whether they succeed or fail, wherever."),
 "C17": (DISK + ", one discriminating value damaged", "The reference decoder says which error it has to be."),
 "C18": ("deterministic simulation: the real dump program under seeded system call faults", "Opens, stats, reads, writes and hash seeds of the real binary are decided by the run."),
 "C19": (DISK + ", refinement against a reference decoder", "Strings are compared character by character; broken modified UTF-8 must be refused."),
 "C20": (DISK + ", descriptors of delivered constants against a reference grammar", "The strings are constants as delivered, intact, torn or spliced."),
 "C21": (DISK + ", descriptors of delivered constants against a reference grammar", "The strings are constants as delivered, intact, torn or spliced."),
 "C22": ("deterministic simulation: constants of interleaved clients compared and hashed under simulated hash seeds", "All pairs of the constants of a history are compared with the model's bitwise identity."),
 "C23": (DISK + " and files of bulk, work counted in control-flow edges and bytes", "Steps are edges of the crate counted by compiler-inserted calls; bytes are those obtained from the allocator or moved by memcpy and memmove. The bounds are about five times the largest use seen, which is in the evidence."),
 "C24": (DISK + ", errors for descriptors of delivered constants against a reference automaton", "The strings are constants as delivered, intact, torn or spliced, and damaged further."),
 "C26": ("deterministic simulation: interleaved pool clients with retries and crashes, lookups compared with a list model", "Every index of short pools and a sample of those of long ones, after histories of up to 200 steps over pools of every origin."),
 "C27": ("deterministic simulation: users of several pools and descriptors on real threads under a seeded scheduler", "Every answer is compared with the one the same session gets alone in a process of its own. Sessions are interleaved operation by operation on one thread, and at compiler-marked edges of the crate between threads."),
 "C25": (DISK + ", one discriminating value damaged and more behind it", "The reference decoder says which error it has to be."),
}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "bash sim/check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bash sim/check.sh %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": TRUST + note,
    })
m = {
 "version": 1,
 "setup_cmd": "bash sim/build.sh edges && bash sim/build.sh plain",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks in /repo: the seams are the bytes handed to the parser, the global allocator, getrandom, clock_gettime, futex, "
          "compiler-inserted edge callbacks, and for the dump program its system calls. 'bash sim/check.sh replay FILE' executes a "
          "replay file; 'bash sim/check.sh digest C05' shows that seeds are executions. known_findings.txt lists repaired defects.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
