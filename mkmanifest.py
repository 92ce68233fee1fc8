#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification checked with TLC; its behaviours replayed on the real code; recorded traces of the real code validated by TLC"
NOTES = {
    "P01": "grammar of the specification against the real parser: every token string up to 4 (thorough: 6) tokens over 20 alphabets, deep texts by a nesting law checked by TLC, random and damaged texts",
    "P02": "invariants over all two-operand expressions in small and edge values and three-operand shapes; every one replayed; random expressions up to 64 bits validated",
    "P03": "model-checked: the echo reads back with the same result and has no superfluous parentheses; echoes of the real code equal the specified ones on replays and random commands",
    "P04": "draw accounting as a model-checked invariant with faults of the source at every draw; recorded draws of the real code validated step by step",
    "P05": "sum rolls: every behaviour of small texts over all dice replayed, random ones validated",
    "P06": "success checks: all operators, targets and totals in small bounds replayed, random ones validated",
    "P07": "basic rolls: all behaviours in small bounds replayed, random ones validated",
    "P08": "exploding rolls: all behaviours up to a small reroll limit replayed, random ones and the real limit validated",
    "P09": "compounding rolls: all behaviours up to a small reroll limit replayed, random ones and the real limit validated",
    "P10": "choices: all positions for up to 12 (40) items, item texts with every kind of blank, random items",
    "P11": "ranges: all placements in small bounds over all dice replayed, random ones validated",
    "P12": "all commands with and without mark and trailing text replayed and compared; random pairs",
    "P13": "failures of the source at every draw of every small text; arbitrary bytes; behaviour after failures compared with fresh sessions",
    "P14": "model-checked interleavings of two instances replayed on real threads; recorded histories of several instances, in turn, at the same time (also under the race detector) and in fresh processes; equal stimuli must give equal replies, replies kept must not change",
    "P15": "64-bit Mersenne Twister in the specification, its laws model-checked on a small field; recorded streams of several sources drawn in turn validated value by value",
    "P16": "every history of up to 5 (6) operations on two sources and the lists of their users replayed on the real queue, long random histories validated",
    "P17": "the shell as a state machine: every session of up to 2 (3) lines out of its vocabulary run through the real program, long random sessions validated",
    "P18": "every history of selections and listings on one registry replayed with games laid over it, random ones and concurrent HTTP requests to the real server validated",
    "P19": "every text of up to 5 (6) tokens read by the real readers and compared, random files and several files validated",
    "P20": "values of every kind asked all questions, random ones validated; message assembly of replies under games of any name and with commands of their own",
    "P21": "model-checked: every expression of two levels in every place of a command is written minimally and reads back as the same command; each replayed on the real code, random commands validated",
}
checks = []
na = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf8"):
    p = json.loads(line)["id"]
    if p not in NOTES:
        na.append({"property": p, "reason": "not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "technique": T, "level": "model_checking", "level_note": NOTES[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed", "source_commits": []},
     "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
