"""Writes MANIFEST.json: one check per property that has a module in checks/."""
import json
import pathlib

here = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in (here / "properties.jsonl").open(encoding="utf-8")]
NOTE = {
    "C01": "storage seam decides every transfer; content judged by an independent reader of the format",
    "C02": "errors, short writes and kills at any byte or call of open, write and close",
    "C03": "races of simulated threads and creation by others at any storage call",
    "C04": "rejected requests of every kind, with and without storage faults",
    "C05": "batches killed, failing or racing at any storage call",
    "C06": "generated files of every format against the numbers printed in them",
    "C07": "errors at any byte or call of open and read, odd paths",
    "C08": "files cut at any point, files that grow between storage calls",
    "C09": "damage of every kind to generated files",
    "C10": "failed additions of every kind between successful ones, against a model without them",
    "C11": "additions in any order through any entry point, against an independent linear response",
    "C12": "seeded histories of reading, editing, masking and copying, against pristine state",
    "C13": "seeded schedules of threads with switches between any two lines of library code",
    "C14": "simulated cluster running the documented workflow, against independent spectra",
    "C15": "histories of predictions, failures and trainings, against single-structure forward passes",
    "C16": "epochs interrupted anywhere, against an independent epoch on a clone",
    "C17": "file lists with a bad entry or storage fault anywhere, histories of rescaling",
}
PURE = {
    "C18": "pure functions of their arguments: no schedule, clock, I/O, randomness or history to simulate; only input "
           "sampling would be left, which is not this technique",
    "C19": "pure closed formulas; only input sampling would be left (the pipeline check C14 compares whole spectra)",
    "C20": "pure attribute conversion without I/O, state or concurrency; only input sampling would be left",
    "C21": "pure function of a direction; only input sampling would be left",
}
checks, absent = [], []
for p in props:
    i = p["id"]
    if i in PURE:
        absent.append({"property": i, "reason": PURE[i]})
    elif (here / "checks" / f"{i.lower()}.py").exists():
        checks.append({
            "property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": f"Seeded search, not exhaustive: {NOTE[i]}. Trusts the storage seam, the file generators and the "
                          "reference models in /verif, CPython, numpy, torch and the C library."})
    else:
        absent.append({"property": i, "reason": "check not written yet"})
(here / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh",
    "checks": checks, "not_applicable": absent,
    "notes": "No hooks in /repo: the storage seam is an LD_PRELOAD library around the real C library, the scheduler uses "
             "Python's trace hooks, clocks, locks and numeric routines are replaced from /verif. A violation is replayed with "
             "bin/replay FILE."}, indent=1) + "\n")
