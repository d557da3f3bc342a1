"""Writes MANIFEST.json: python3 tools/genmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation: "
CLAIMED = {
    "C01": ("seeded hash-order and input search, studies on simulated threads, dense reference model",
            "Real element, matrix and solver code; assumes models with scaled condition number below 1e7 and trusts the harness's own dense reference."),
    "C02": ("seeded histories of supports and loads in two orders under drawn hash keys, superposition oracle",
            "Real element, matrix and solver code; loads put on one node or edge add up."),
    "C03": ("seeded histories of coefficient and load contributions under drawn hash keys, three solvers against dense algebra",
            "Real solver and storage code; the iterative solver's tolerance is checked through the residual it implies."),
    "C04": ("seeded hash-order and input search over modal studies, reference generalised eigenproblem",
            "Real element, matrix and eigen search code; natural frequencies distinct by more than 0.2%."),
    "C05": ("seeded operation histories on one searcher under drawn hash keys, reference spectrum",
            "Real eigen search code; eigenvalues distinct by more than 0.2%, mass within the stiffness pattern."),
    "C06": ("seeded operation histories over every storage scheme under drawn hash keys, dense mirror matrix",
            "Real storage code; writes outside a fixed-structure scheme's stored positions are outside the rule."),
    "C07": ("seeded coupling graphs and edge orders under drawn hash keys, bijection and breadth-first oracles",
            "Real graph and permutation code."),
    "C08": ("seeded basic-block scheduling of concurrent studies with clock stalls and jumps, solo runs in fresh processes as oracle",
            "Real studies, threads and locks; interleavings at basic-block granularity of the crate's own code."),
    "C09": ("seeded fault injection at the system call boundary of a simulated disk, fault-free pictures as oracle",
            "Real drawing, encoding and std file code; close errors and power loss are not injected."),
    "C10": ("seeded histories of saves and loads with fault injection at the system call boundary of a simulated disk, independent strict reader of the format as oracle",
            "Real file, element and std file code; the missing crate spacemath is a stand-in; power loss is not injected."),
    "C11": ("seeded crash points, corruption and read faults on a simulated disk, generated documents as oracle",
            "Real parsers; the missing crate spacemath is a stand-in; the formats carry no checksum, so damage that leaves a well-formed file may only not crash."),
    "C12": ("seeded work-list orders, vertex counter histories and concurrent meshing under basic-block scheduling, exact combinatorial and area oracle, bounded steps",
            "Real mesher; the missing crate spacemath is a stand-in; regions of at most some 400 size squares."),
    "C13": ("seeded work-list orders, vertex counter histories and concurrent meshing, reference assignment of supports and loads to the mesh",
            "Real mesher; the missing crate spacemath is a stand-in; supports at an angle are not combined with others."),
    "C14": ("seeded work-list orders, vertex counter histories and concurrent meshing under basic-block scheduling, exact combinatorial, area and quality oracle, bounded steps",
            "Real mesher; the missing crate spacemath is a stand-in; termination is judged by a step budget."),
    "C15": ("seeded histories of command lines, each a forked process running the program's main on a simulated disk and standard output, with faults and crashes injected at the system call boundary; dense reference and generated documents as oracle",
            "Real program, argument parsing, files, mesher, studies and drawing; the missing crate spacemath is a stand-in; equivalent stresses are compared with the library asked directly; close errors and power loss are not injected."),
}
TODO = "machinery not built yet"
PURE = "a pure function of its arguments: no order, time, I/O, randomness or second party for a simulator to control"

props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": DST + t,
            "level": "exploration",
            "level_note": "Seeded search over simulated runs; not exhaustive. " + n,
        })
    else:
        na.append({"property": i, "reason": PURE if i.startswith("N") else TODO})
setup = "tools/build.sh core" + (" && tools/build.sh full" if any(c["property"] >= "C10" for c in checks) else "")
m = {
    "version": 1,
    "setup_cmd": setup,
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every source of nondeterminism is interposed at the libc boundary and by compiler instrumentation of the crate as built in /verif/.build.",
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
