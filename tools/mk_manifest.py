"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTES = {
    "C01": ("bounded-exhaustive enumeration of all expression trees; real interpreter compared with an explicit reference semantics", "all trees up to 2-3 operators plus axis sweeps; the reference is independent integer arithmetic"),
    "C02": ("bounded-exhaustive enumeration of dice terms; real interpreter compared with an explicit reference semantics", "all bracket lists up to 3 entries of a small alphabet, spellings, numbers of dice"),
    "C03": ("bounded-exhaustive enumeration of keep/drop terms against the sorted-rolls rule evaluated over all rolls", "all terms with few dice over all small face multisets"),
    "C04": ("stateless model checking of roll(): every answer of the random source is enumerated with its exact probability", "complete draw trees of all small programs; joint law of result and variables"),
    "C05": ("bounded-exhaustive enumeration of programs; extremes compared with the set of all reachable outcomes", "all small programs incl. dependent variables"),
    "C06": ("bounded-exhaustive enumeration of programs with variables against the joint law over all dice worlds", "explicit worlds as oracle; recorded reuse-weights finding accepted only when matched exactly"),
    "C07": ("bounded-exhaustive enumeration of programs with //, and of all draws of their rolls", "error exactly on the worlds that divide by zero"),
    "C08": ("bounded-exhaustive enumeration of operator chains against an independent reference parser", "all chains to 4-5 operators"),
    "C09": ("exhaustive enumeration of token strings and character edits against an independent reference lexer and parser", "all token sequences up to a length, all single-character edits"),
    "C10": ("explicit-state exploration of call sequences; session model run in lock-step with the real interpreter, all random answers", "all sequences of calls to depth 3"),
    "C11": ("all interleavings of calls, and controlled thread scheduling at every source line (preemption bound 1; 2 at calls)", "real threads on the real code, schedules enumerated"),
    "C12": ("bounded-exhaustive enumeration of count maps and programs; all statistics compared with exact rational values", "all small count maps and insertion orders"),
    "C13": ("exhaustive enumeration of charts and chart sequences (also with failing writes); the written figure is compared with the data", "figures inspected at the canvas"),
    "C14": ("bounded-exhaustive enumeration of programs against the cost rule, with random draws forbidden and huge programs bounded in time", "all small programs and keep/drop terms"),
    "C15": ("explicit-state exploration of constraint-set constructions against conjunction semantics over all assignments", "all construction sequences to depth 5-6"),
    "C16": ("explicit-state exploration of call sequences re-reading every earlier result, with and without the caller overwriting it", "all sequences to depth 3"),
    "C17": ("explicit-state exploration of sessions with failing lines at every position; lock-step session model, all random answers", "all sessions with one failing call among up to two others"),
    "C18": ("explicit-state exploration of query sequences on parsed expressions; lock-step model, all random answers; exhaustive print/parse round trip", "all query sequences to depth 3"),
    "C19": ("bounded-exhaustive enumeration of operator applications on distribution objects against explicit dice worlds", "all operators on all pairs and triples of objects"),
    "C20": ("exhaustive enumeration of token and character strings, bad characters at every column, against a reference scanner and a reference parser that report the first impossible place", "all token sequences up to length 4, all single-character edits, all columns"),
}


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        technique, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "%s run.py %s" % (PY, p),
            "thorough_cmd": "%s run.py %s --tier thorough" % (PY, p),
            "evidence_file": "evidence/%s.json" % p,
            "technique": "model checking: " + technique,
            "level": "model_checking",
            "level_note": note + "; exhaustive within the bounds in the evidence file, on the real code",
        })
    manifest = {"version": 1, "setup_cmd": "%s -c \"import sys; sys.path.insert(0, '.'); import mc.impl\"" % PY, "checks": checks, "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
