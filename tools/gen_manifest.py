#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
T = {
 "C01": ("online monitor of reported bests over the recorded evaluation log", ""),
 "C02": ("online monitor of call counts against reported counters", ""),
 "C03": ("differential monitoring of recorded histories across schedules, thread counts and options", ""),
 "C04": ("differential monitoring of recorded histories under value transformations", ""),
 "C05": ("online reference-model monitor of every state update", ""),
 "C06": ("monitor of reported parameters against an independent implementation of the formulas", ""),
 "C07": ("statistical monitor of the standardized sampled points", "thresholds of at least 6 standard deviations"),
 "C08": ("online invariant monitor of the distribution state with independent eigenvalues", ""),
 "C09": ("offline checker over the log of constraint checks and evaluated points", ""),
 "C10": ("online monitor of limits over recorded calls and times, with injected delays", ""),
 "C11": ("online monitor of the documented termination conditions over the recorded values and states", "one known finding (NoEffectCoord adds a fifth of the variance)"),
 "C12": ("fault injection (NaN values and panics) with bitwise state comparison and online monitors across failures", ""),
 "C13": ("stress with hostile values and settings under overflow checks, a panic monitor, work bounds and a hang watchdog", ""),
 "C14": ("monitor of acceptance of generated options against the documented rules, and of panics when running what was accepted", "known findings for accepted options that panic when run"),
 "C15": ("offline checker (conservation) over the recorded calls of restart strategies against their results", ""),
 "C16": ("offline checker of the recorded runs of restart strategies against limits and a simulated schedule", ""),
 "C17": ("offline checker of recovered step sizes and printed populations against the simulated schedule, with a distribution test", ""),
 "C18": ("statistical and differential monitor of recovered starting points and reproduced runs", "thresholds of at least 6 standard deviations"),
 "C19": ("statistical differential monitor of evaluations needed against an independent implementation", "medians over seeds; suspicions are decided with 61 to 81 seeds at 6 standard errors"),
 "C20": ("online monitor of recorded plot points against the true states, with decoding of the drawn images", "images are judged by their size and the presence of drawn lines, not pixel by pixel"),
 "C21": ("offline checker of the captured standard output against the recorded states", ""),
 "C23": ("ThreadSanitizer, AddressSanitizer, MemorySanitizer and Miri on stress workloads with injected delays and faults, with monitors of overlap, thread affinity and completion of calls", "C libraries used for drawing images are not instrumented"),
 "C24": ("counting allocator and drop counters read across histories, faults and restarts", ""),
 "C22": ("differential monitor of wrapped and plain objectives and of convenience functions against their definition", ""),
}
EXTRA = os.path.join(os.path.dirname(__file__), "techniques.json")
if os.path.exists(EXTRA):
    T.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = "judges only the executions produced; "
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "runtime monitoring: " + t,
   "level": "exploration",
   "level_note": NOTE + (n or "oracles are described in DESIGN.md"),
  } for p, (t, n) in sorted(T.items())
 ],
 "not_applicable": [
  {"property": p, "reason": "the check is still being built"}
  for p in [f"C{i:02}" for i in range(1, 25)] if p not in T
 ],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
