#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run after changing what the checks do)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitoring of real decodes against an independent reference decoder (differential oracle, panic and overflow checks on)"
T = {
 "C01": (DIFF, "malformed inputs (one-fault injections at every kind of token, mutations, enumerated small inputs, integer and UTF-8 enumerations, section orders and sizes) must be rejected wherever the reference rejects"),
 "C02": (DIFF, "generated well-formed modules in all permitted encodings, long lists, deep nesting; must be accepted wherever the reference accepts"),
 "C03": (DIFF + "; component comparison", "every component of each accepted module compared with the reference's"),
 "C04": (DIFF + "; instruction trees compared", "every opcode in every context with boundary immediates, unassigned opcodes and aliases, nestings to 1,000"),
 "C05": (DIFF + "; enumerated encodings", "every integer position x every length to 11 x every last byte x four fillings, boundary values in every legal length"),
 "C06": (DIFF + "; bitwise comparison", "float, vector, byte payloads of chosen and random contents and sizes to 1 MiB"),
 "C07": (DIFF + "; type comparison", "all short encodings at 11 type positions, generated types, long forms"),
 "C08": (DIFF + "; header trace comparison", "all sequences of three sections, random longer ones, sizes off by any amount, unknown ids"),
 "C09": (DIFF + "; function/code pairing", "declared counts, body sizes and local totals around every limit"),
 "C10": (DIFF + "; data consistency", "data count against data section against data instructions at all depths and in all branches"),
 "C11": ("panic, overflow, signal and stack monitoring of decodes and renderings in supervised processes", "all workloads; overflow checks and debug assertions on; nesting in processes of its own"),
 "C12": ("counting allocator: peak and residual bytes per decode against bytes received", "declared-length bombs at every list, long inputs, failures; bound three times the largest ratio measured"),
 "C13": ("instruction counts (valgrind), read calls and allocated bytes per input byte at two sizes", "33+ module shapes; growth beyond a factor between sizes is a violation"),
 "C14": ("instrumented readers: chunked, byte-wise and interrupted deliveries compared with delivery at once", "result compared in full (module, or error with chain and debug form)"),
 "C15": ("fault-injecting readers at every kind of offset with 40+ failure forms; cause chain searched for the injected failure", "every offset of small modules, all section and body ends, all prefixes"),
 "C16": ("logging reader: consumed bytes and observed end compared with the reference's section and body ends", "faults, cuts, orders, generated modules"),
 "C17": ("differential over histories: repeats, nested decodes in suspended readers, concurrent threads, against fresh processes/threads; ThreadSanitizer build under concurrent decodes", "overlap of concurrent decodes is measured"),
 "C18": ("metamorphic runtime comparison: with, without and with other custom sections", "placements everywhere, contents and names of all kinds"),
 "C19": (DIFF + "; section and positions named by the error against the first fault the reference meets", "one-fault injections at every kind of token and enumerations"),
 "C20": (DIFF + "; end of the cause chain against the root cause the reference found", "one-fault injections at every kind of token and enumerations, failing readers"),
 "C21": (DIFF + "; numbers and kinds in mismatch errors against the reference's counts", "size, count, order and total mismatches of every kind"),
 "C22": ("process monitor of the real command-line tool: status and outputs against the library's verdict", "13 ways of passing input x flags, unreadable inputs of 16 kinds, unwritable outputs of 7 kinds"),
 "C23": ("process monitor of the real command-line tool: report text against the library's error chain and debug forms", "failing and succeeding inputs with and without verbose output"),
 "C24": (DIFF + "; names", "all names to 2 bytes, boundary 3- and 4-byte names, every scalar value and surrogate, long names with one flaw"),
 "C25": (DIFF + "; words of the messages against the item at which the reference meets the first fault", "one-fault injections at every kind of token and enumerations; 2,000+ combinations of section, item, instruction and cause"),
 "C26": (DIFF + "; values listed in messages against those the grammar allows there", "all 256 bytes at every marker, boundary values at every flag and kind"),
 "C27": ("compiler sanitizers and interpreter: AddressSanitizer and MemorySanitizer builds (instrumented standard library) and Miri run decodes through hostile readers", "readers that inspect their buffer, claim too much, panic, fail, interrupt, at any offset; generated, faulty, mutated inputs"),
 "C28": ("runtime comparison of result digests across builds: release, development, 32-bit x86 run natively; big-endian 64- and 32-bit interpreted by Miri", "hundreds of thousands of inputs natively, hundreds on big-endian; word-size bombs"),
 "C29": ("runtime comparison of pairs of decoded modules: `==`, `!=` and debug forms against the parts in which they differ", "neighbouring inputs (a byte or two changed), all pairs of instructions in every place, all pairs in groups of inputs"),
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "./check.sh --build",
        "checks": [
            {"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
             "technique": T[i][0], "level": "exploration", "level_note": T[i][1]}
            for i in ids],
        "not_applicable": [],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
