"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded I/O faults, interrupts and kills over path aliasing scenarios; source tree compared before and after",
    "C02": "seeded I/O faults, interrupts and kills; whole simulated disk and every mutating call compared",
    "C03": "seeded I/O faults and legal short I/O; refinement against the fault-free run",
    "C04": "seeded crash/power-loss/re-run histories; final state against a clean run",
    "C05": "seeded listing orders, hash seeds, clocks, locales, environments; byte equality",
    "C06": "seeded histories of (failing, interrupted) conversions in one process; probe against a fresh process",
    "C07": "seeded line-level thread schedules; each thread against its solo run",
    "C08": "seeded orders, histories and failures; conservation laws over results, logs and tables",
    "C09": "seeded trees, listing orders and I/O behaviours; executable model of the selection",
    "C10": "operation and line budgets over seeded shapes and repeated runs",
    "C11": "seeded orders, failures and histories; helper definitions against per-file needs",
    "C12": "seeded sibling sets and processing orders; in company against alone",
    "C13": "seeded formatter failures; program equality with the fault-free run",
    "C14": "seeded interrupts at code lines and I/O operations; next conversion against a fresh process",
    "C15": "seeded concurrent edits between I/O operations; outputs against the conversions of all versions",
    "C16": "seeded clocks, log faults and report options; byte equality with the plain run",
    "C17": "seeded I/O faults over repeated conversions; open handles counted",
}
NA = {
    "C30": "a pure function of the source text (and needs PyTorch and Paddle, which are not installed): no schedule, fault, clock or I/O takes part, so simulation cannot address it",
    "C31": "a pure function of the source text: no schedule, fault, clock or I/O takes part",
    "C32": "a pure function of the source text: no schedule, fault, clock or I/O takes part (that I/O faults and formatter failures do not damage outputs is C03 and C13)",
    "C33": "a pure function of the source text: no schedule, fault, clock or I/O takes part",
    "C34": "a pure function of the source text and one option: no schedule, fault, clock or I/O takes part",
    "C35": "a pure function of the source text: no schedule, fault, clock or I/O takes part",
    "C36": "a static fact about data files: nothing to simulate",
}
checks = []
for k in sorted(TECH):
    checks.append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "technique": T + TECH[k], "level": "exploration",
                   "level_note": "Seeded search over simulated executions of the real code; a clean batch is evidence, not proof. Trusted: the seams (sim/seams.py), the oracle of the scenario (sim/props.py), the Python interpreter; assumptions are listed in the evidence file."})
doc = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
       "notes": "No hooks in /repo: all seams are installed from outside, before the package is imported. The commits in /repo are repairs, listed in KNOWN_FINDINGS.txt. Replay: python3 check.py --replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
