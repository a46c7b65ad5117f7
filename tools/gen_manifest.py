"""Writes /verif/MANIFEST.json from what the checks are."""
import json, os
T = {
 "C01": ("exhaustive state exploration of write/read histories against an array model", "all shapes, indices and short histories within the bounds"),
 "C02": ("exhaustive enumeration of operations x shapes x boundary values against reference arithmetic", "all combinations within the bounds, eager and graph"),
 "C03": ("exhaustive enumeration of shapes, dimensions and value arrangements against reference reductions", "all combinations within the bounds, eager and graph"),
 "C04": ("exhaustive enumeration of shapes and arguments against index-level reference definitions", "all combinations within the bounds, eager, graph and nested"),
 "C05": ("exhaustive enumeration of operand shapes and dimension pairs against the reference contraction", "all combinations within the bounds"),
 "C06": ("exhaustive enumeration of expression DAGs, each executed and compared with step-by-step evaluation", "all DAGs up to the size bound over the operation alphabet"),
 "C07": ("explicit-state exploration of histories of leaf writes and executions of several graphs", "all histories up to the depth bound"),
 "C08": ("explicit-state exploration of histories of operations and writes with an ownership model", "all histories up to the depth bound"),
 "C09": ("exhaustive enumeration of legal and illegal shapes and arguments against the shape rules", "all combinations within the bounds"),
 "C10": ("exhaustive fault enumeration: every write failure, truncation and fragmentation point", "all fault points of the enumerated streams"),
 "C11": ("explicit-state exploration of save/load/train histories, with every write failure and truncation point", "all histories up to the depth bound, all fault points"),
 "C12": ("explicit-state exploration of prediction histories against a reference network", "all histories up to the depth bound"),
 "C13": ("exhaustive enumeration of layer configurations and input shapes against reference definitions", "all configurations within the bounds"),
 "C14": ("explicit-state exploration of training histories against a reference gradient-descent network", "all histories up to the depth bound on every architecture"),
 "C15": ("explicit-state exploration of freeze/train histories against a reference network", "all freeze patterns and histories up to the depth bound"),
 "C16": ("exhaustive enumeration of the ways of composing a network, each compared with the reference function", "all compositions within the bounds"),
 "C17": ("exhaustive exploration of the tree of answers of the random source behind training", "all answer sequences within the bounds"),
 "C18": ("exhaustive enumeration of float32 inputs (thorough: all bit patterns) and float64 grids against independent definitions", "all enumerated inputs"),
 "C19": ("exhaustive enumeration of all half-precision values and pairs, and all single-precision conversions", "all bit patterns and pairs as stated in the evidence"),
 "C20": ("exhaustive enumeration of image sizes, scalings, file kinds and levels, and of file truncations", "all combinations within the bounds"),
 "C21": ("explicit-state exploration of call histories in lock-step with a twin compiled beforehand", "all histories up to the depth bound"),
 "C22": ("stateless exploration of two-thread schedules under a controlled statement-level scheduler, with happens-before race detection", "all schedules up to the preemption bound as stated"),
 "C23": ("explicit-state exploration of summary histories, lines matched against the reference network", "all architectures and histories within the bounds"),
 "C25": ("exhaustive enumeration of shapes, indices, shape pairs, value lists and bar sizes against the definitions", "all combinations within the bounds"),
 "C24": ("exhaustive exploration of the tree of answers of the random source", "all answer sequences over a boundary alphabet"),
}
checks = []
for id in sorted(T):
    tech, note = T[id]
    lvl = "fault_enumeration" if id in ("C10", "C11") else "model_checking"
    checks.append(dict(property=id, quick_cmd=f"bash run.sh {id} quick", thorough_cmd=f"bash run.sh {id} thorough",
        evidence_file=f"evidence/{id}.json", technique="model checking: " + tech, level=lvl,
        level_note="Bounded but exhaustive, on the real code rebuilt from /repo's working tree: " + note + ". Trusts the reference model in /verif/mc and the Go toolchain; bounds are in the evidence and in DESIGN.md."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
  notes="No hooks in /repo: the checks are built with go build -overlay, which replaces math/rand's package-level functions (every draw is answered by the explorer) and, for C22, inserts a scheduling point before every statement of the library. Known findings and repaired defects are in known_findings.txt.")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
