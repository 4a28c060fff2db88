#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
M = "differential runtime monitor: generated workloads on the real library, every result judged online by an independent reference model"
TECH = {
    "C03": "accept/reject monitor: exhaustive and random tag mutations on real runs, judged by the reference tag",
    "C09": "accept/reject monitor: systematic tampering with real ciphertexts, judged by recomputed reference tags",
    "C10": "memory-effect monitor: guard pages, watched output buffers and a concurrent observer during real decryptions",
    "C12": "metamorphic monitor over chains of real Diffie-Hellman operations, plus the reference model",
    "C14": "accept/reject monitor: honest, tampered and crafted signatures judged by the RFC 8032 equation of the reference model",
    "C15": "sanitizers: overflow-checked builds, guard pages, AddressSanitizer and Miri over the workloads of all properties",
    "C16": "panic and effect monitor over illegal and legal lengths, including inaccessible giant slices",
    "C17": "transcript comparison between executions of differently built programs (profiles, features, 32-bit, big-endian under Miri)",
    "C18": "dynamic taint tracking (valgrind memcheck) and comparison of recorded instruction/address traces (valgrind lackey)",
    "C19": "interleaving and multi-threaded stress with per-instance oracles, under ThreadSanitizer",
    "C21": "resource monitors: counting allocator and painted stack around every real call; valgrind instruction counts over growing and adversarial inputs",
}
NOTE = {
    "default": "Shows no deviation on everything executed, in an optimised and in an overflow-checked build; inputs not generated are not covered. Trusts the reference model (self-tested against OpenSSL answers).",
    "C15": "Shows no panic, overflow, stray access or undefined behaviour on everything executed under the stated sanitizers; inputs not generated are not covered.",
    "C17": "Shows equal results for all executed cases between the listed builds; big-endian only as interpreted by Miri, 32-bit natively on x86.",
    "C18": "For the compiled x86-64 release code: no executed branch or address computed from marked secrets, identical traces for pairs; inputs are sampled per public length.",
    "C21": "Shows no allocation, bounded stack and linear instruction counts on everything executed on x86-64 builds.",
    "C19": "Shows no interference and no reported race on the executed interleavings.",
}
GUIDED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C14 C15 C20".split()
def ck(p):
    i = p["id"]
    return dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, M) + ("; plus a search for inputs guided by branch and comparison events of the instrumented library" if i in GUIDED else ""), level="exploration", level_note=NOTE.get(i, NOTE["default"]))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hooks"], capture_output=True, text=True).stdout.split()
json.dump(dict(version=1, setup_cmd="python3 check.py setup",
               hooks=dict(guard="crypto_pure_verif, crypto_pure_verif_state (rustc --cfg)", enable='RUSTFLAGS="--cfg crypto_pure_verif --cfg crypto_pure_verif_state" cargo build (check.py does it; the harness features `hooks` and `state` use the entry points)', source_commits=hooks),
               checks=[ck(p) for p in props], not_applicable=[],
               notes="Exit 2 of a check means no verdict (a build, tool, memory or time failure), never a violation."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
