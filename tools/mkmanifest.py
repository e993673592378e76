#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "reference-model monitor: real merges of generated stylesheets and lists, judged by an independent executable model"
T = {
 "C01": (MODEL, ""), "C02": (MODEL, ""), "C03": (MODEL + "; every property pair related by expansion is driven", ""),
 "C04": (MODEL + "; pairs of neighbouring circumstances", ""), "C05": (MODEL, ""), "C06": (MODEL, ""),
 "C07": ("trace monitor on merge inputs and outputs", ""),
 "C08": ("differential monitor over repeated calls, instances, order modes and processes", ""),
 "C09": ("metamorphic monitor over chains of merges", ""),
 "C10": (MODEL + "; metamorphic (split, reordered, superseded stylesheets)", ""),
 "C11": ("differential monitor: histories on mergers with and without caches in lock-step", ""),
 "C12": ("race detector and linearizability checking (porcupine) of recorded concurrent histories", " Interleavings are those the scheduler and injected delays produced."),
 "C13": ("race detector and linearizability checking (porcupine) of recorded concurrent histories", " Interleavings are those the scheduler produced."),
 "C14": ("robustness monitoring under hostile generated inputs: crash, hang and memory watchdogs, recovery probe", " Termination is judged by CPU time (90 s for inputs that take milliseconds)."),
 "C15": ("fault injection (reader errors, damaged stylesheets) with before/after state monitors", ""),
 "C16": ("metamorphic monitor: equivalent layouts and reader chunkings", ""),
 "C17": (MODEL + "; random names, escapings and look-alikes", ""),
 "C18": ("memory red zones, state snapshots of bystander mergers, race detector", ""),
 "C19": (MODEL + "; rule table against an independent tokenizer", ""),
 "C20": ("reference-model monitor: selector matches on random documents against an independent matcher", ""),
 "C21": ("round-trip monitor over generated selectors", ""),
 "C22": ("reference-model monitor: specificity of generated selectors, order laws on values", ""),
 "C23": ("reference grammar generator and corruptions, robustness monitoring of the parser", ""),
 "C24": ("trace monitor of query results against an independent walk, tree snapshots", ""),
 "C25": ("differential monitor against an independent reading of the data file, mutation of private copies", ""),
 "C26": ("reference-model monitor: a small CSS cascade applied to the merged list", ""),
 "C27": ("reference-model monitor over histories of uses and tree edits, race detector", " Interleavings are those the scheduler produced."),
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
have = open(H + '/tools/claimed.txt').read().split()
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: the harness is compiled into the module through 'go build -overlay' and uses its packages as they are. fix: commits in /repo are listed in known_findings.txt.",
}
for p in props:
    i = p['id']
    if i not in have:
        continue
    t, n = T[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": "Held on the executions produced (counted in the evidence file), nothing more; cases follow from VERIF_SEED." + n + " Trusts the harness's own generator and oracle, the Go toolchain and, for stylesheets, the tdewolff/parse tokenizer as a black box.",
    })
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(m["checks"]))
