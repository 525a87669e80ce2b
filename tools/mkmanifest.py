"""Write MANIFEST.json from the registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import props  # noqa: E402

TRUST = "Trusts rustc, the standard library and the monitors in /verif/fm; enum shapes and histories are sampled from VERIF_SEED."
MON = "runtime monitoring: "
T = {
    "C01": ("online dictionary monitor over histories on generated key types", "Every result and the whole map compared with a dictionary after each call. "),
    "C02": ("online set monitor over histories on generated key types", "Every result and the whole set compared with a mathematical set after each call. "),
    "C03": ("non-interference monitor over whole key universes", "Every other key observed before and after each write; all ordered pairs of keys for small universes. "),
    "C04": ("conservation monitor on all iterators", "Every iterator consumed in nine ways and compared with point queries. "),
    "C05": ("order monitor on iterators over many histories of one content", "Order compared with an independent description of the declaration. "),
    "C06": ("deque monitor on interleavings of both ends, clones and exhaustion", "All words of front/back steps for short iterators, sampled for long ones. "),
    "C07": ("promise monitor on size hints at every point of consumption", "Each promise is compared with what was yielded afterwards. "),
    "C08": ("entry monitor with closure-call log and address identity", "22 entry operations on every key of each content. "),
    "C09": ("predicate-call log and contents monitor for retain", "Every predicate call logged; all subsets accepted for small contents. "),
    "C10": ("ownership ledger of instrumented values over histories", "After each operation the live values must be exactly those owned. "),
    "C11": ("Miri (stacked and tree borrows), AddressSanitizer, LeakSanitizer, MemorySanitizer on the monitor workloads", "Undefined behaviour and leaks on the executed paths only. "),
    "C12": ("panic injection at every call of user code with ledger and contents monitors", "Every k-th call of every kind of user code in every operation of the workload. "),
    "C13": ("address and value monitor over all mutable access paths", "All mutable references of an iteration held at once; read back through every path. "),
    "C14": ("equality oracle over pairs of containers with independent histories", "All pairs of contents for small universes, single differences for large ones. "),
    "C15": ("recording hasher over pairs of containers with independent histories", "Calls and bytes compared; injectivity over all contents of small universes. "),
    "C16": ("ordered-dictionary oracle over pairs and triples of maps", "All comparison operations against BTreeMap of the contents. "),
    "C17": ("ordered-set oracle over pairs and triples of sets", "All comparison operations against BTreeSet of the contents, both storages. "),
    "C18": ("membership oracle over intersections in eight forms of iteration", "All forms agree with contains on both sides, whichever is receiver. "),
    "C19": ("non-interference monitor over families of clones and copies", "Every relative observed after every operation; value clones counted. "),
    "C20": ("serde event log checked against contents, round trips through three formats", "Recorded data-model events plus JSON, bincode and CBOR round trips. "),
    "C21": ("hostile deserializer with faults at every event, ledger and allocation monitors", "Errors, wrong kinds, lying hints, duplicates at every position of the stream. "),
    "C22": ("bit-exact oracle over raw values", "All 8 and 16 bit raw values of small types, patterns and samples of wide ones. "),
    "C23": ("paired execution of array and bitset twins, traces compared", "Twin enums run one history; every observation must be identical. "),
    "C24": ("call log on hostile source iterators, compared with insertion", "Hints, fusing, duplicates, early ends and panics of the source. "),
    "C25": ("differential formatting against std with failing writers at every byte", "Formats, flags and writer failures at each position. "),
    "C26": ("counting global allocator and size oracle", "Every allocator call during operations on fixed key types is a violation. "),
    "C27": ("trace digests of one workload over feature combinations and optimisation levels", "Digests must agree over all configurations. "),
    "C28": ("compiler diagnostics of generated accepted and refused programs, accepted ones executed", "Each program is compiled with warnings denied and unsafe code forbidden. "),
    "C29": ("ThreadSanitizer and Miri's race detector over concurrent readers and separate writers", "Executed schedules only, with injected delays; models checked per thread. "),
}
LEVEL = {"C12": "fault_enumeration", "C21": "fault_enumeration"}


def main():
    claimed = sorted(props.CHECKS)
    allp = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for c in claimed:
        t, note = T[c]
        checks.append({
            "property": c,
            "quick_cmd": "python3 check.py " + c,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c,
            "evidence_file": "evidence/%s.json" % c,
            "technique": MON + t,
            "level": LEVEL.get(c, "exploration"),
            "level_note": note + TRUST,
        })
    m = {
        "version": 1, "setup_cmd": "true", "checks": checks,
        "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in allp if p not in claimed],
        "notes": "No hooks: everything is observed through the public API, serde, the allocator and the compiler. "
                 "KNOWN_FINDINGS.txt lists recorded and repaired defects.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
