"""Write MANIFEST.json from the checks that exist."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
EXP = "exploration"
T = {
    "C01": ("explicit-state enumeration of the parameter/time lattice on the real kernels", EXP),
    "C02": ("exhaustive enumeration of small halo populations, orders and call forms against per-halo evaluation", EXP),
    "C03": ("exhaustive enumeration of the bounded parameter lattice through the real transforms", EXP),
    "C04": ("exhaustive enumeration of one-at-a-time and pairwise parameter lattices through the real transforms", EXP),
    "C05": ("exhaustive enumeration of parameter/time/argument lattices: automatic versus difference derivatives", EXP),
    "C06": ("exhaustive enumeration of small mass histories and cut options on the real fitter front end", EXP),
    "C07": ("exhaustive enumeration of small histories x option sets through the real fitter, with optimiser-failure injection", EXP),
    "C08": ("exhaustive enumeration of fault positions (non-finite losses and gradients) in the real optimisers", "fault_enumeration"),
    "C09": ("exhaustive enumeration of record alphabets, small tables and overwrite histories through the real writer and readers", EXP),
    "C10": ("exhaustive enumeration of row ranges, column orders, group depths and write histories through the real readers", EXP),
    "C11": ("stateful exploration of all process schedules of the real MPI programs under a controlled scheduler", "model_checking"),
    "C12": ("exhaustive crash-point and fault enumeration of the real programs on explored schedules, with restart from every crash state", "fault_enumeration"),
    "C13": ("exhaustive enumeration of short mass histories and row ranges through the real loaders; all schedules of the distribution step", EXP),
    "C14": ("exhaustive enumeration of a mass/time/parameter-corner/key lattice through the real Monte Carlo generators", EXP),
    "C15": ("monitoring of the random-key tree on enumerated populations plus exact statistics over an enumerated key set", EXP),
    "C16": ("exhaustive enumeration of bins, populations and target perturbations against an independent weighted-average oracle", EXP),
    "C17": ("exhaustive enumeration of the scatter-parameter corner lattice and of integer-filled matrices of every small dimension", EXP),
    "C18": ("exhaustive one-at-a-time perturbation of every named parameter over a mass/time lattice: influence matrix against its specification", EXP),
    "C19": ("exhaustive enumeration of parameter corners x mass x time x quantile grid, with quadrature oracle", EXP),
    "C20": ("exhaustive enumeration of small arrays over tie-rich alphabets against definitions", EXP),
    "C21": ("exhaustive enumeration of call sequences up to depth 3 and of two-thread interleavings with bounded preemption on the real code", "model_checking"),
    "C22": ("exhaustive enumeration of small synthetic target directories and loader options against the files themselves", EXP),
    "C23": ("exhaustive enumeration of small catalogues, bin grids and directories through the real tabulation, with every executed line as a stop or fault", EXP),
    "C24": ("exhaustive enumeration of parameter corners x data sets x targets through the real losses and component fitters", EXP),
    "C26": ("exhaustive enumeration of parameter levels x mass x time x peak-time lattices for every relation, alone and in the populations", EXP),
    "C27": ("exhaustive enumeration of option combinations x processes on the real program text against a selection model", "model_checking"),
    "C25": ("exhaustive enumeration of small tables of bins and their orders through the real figures, with the drawn curves monitored", EXP),
}
NOTE = {
    "exploration": "Every point of the stated finite lattice is executed on the code of the working tree; nothing is claimed between lattice points. "
                   "Trusted: the independent numpy float64 reference in lib/ref.py and the tolerances stated in DESIGN.md.",
    "fault_enumeration": "Every fault position of the enumerated histories is executed on the real code. Trusted: the fault model stated in DESIGN.md "
                         "(process stop with intact page cache, raised exceptions, non-finite numbers) and the stand-ins for absent packages.",
    "model_checking": "All interleavings at the stated scheduling points are executed on the real code (no abstract model, so traces are the "
                      "implementation's own), for the stated numbers of processes/threads and inputs. Trusted: the stand-in MPI semantics and the choice "
                      "of scheduling points given in DESIGN.md.",
}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    tech, level = T[pid]
    if (V / "checks" / f"{pid}.py").is_file():
        checks.append(dict(property=pid, quick_cmd=f"bash run.sh {pid} quick", thorough_cmd=f"bash run.sh {pid} thorough",
                           technique=tech, level=level, level_note=NOTE[level]))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="No build step is needed: checks import the working tree of /repo (VERIF_REPO) directly. No hooks were added to /repo.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
