#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist in tkverif/checks"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("output monitor: independent escaping oracle over hostile values",
         "every executed render is compared with an independent escaping oracle; values, types, positions and batch sizes are sampled"),
 "C02": ("output monitor: reference interpreter of template trees",
         "every executed render is compared with an independent tree interpreter; templates and contexts are sampled"),
 "C03": ("output monitor: parse equivalence of source document and output",
         "random documents in random layouts; output re-read by an independent reader"),
 "C04": ("output monitor: eval of expressions with known extent",
         "expressions and surrounding texts sampled; extents known by construction"),
 "C05": ("output monitor: attribute rules oracle",
         "values, attribute mixtures and py:attrs forms sampled against an independent oracle"),
 "C06": ("differential monitor: C buffer against Python buffer",
         "operation histories and templates sampled, both implementations observed in lock step"),
 "C07": ("AddressSanitizer + UBSan, reference count and memory growth monitors",
         "sampled and fault-injected call sequences under sanitizers; reports only what was executed"),
 "C08": ("output monitor: reference model of inheritance and imports",
         "random template sets compared with a linking model"),
 "C09": ("isolation monitor: results under threads, nesting and histories against solitary renders; context snapshots",
         "schedules stressed with tiny switch intervals and injected yields; not enumerated"),
 "C10": ("history monitor: file loader against a model of files and cache",
         "random histories with real files and real time"),
 "C11": ("offline checker over event logs of concurrent loads and file changes",
         "stressed schedules with injected delays; version visibility checked from recorded intervals"),
 "C12": ("exception monitor: planted defects with known lines, and fuzzing",
         "planted defects at known lines in random templates; fuzzed texts observed for other exceptions"),
 "C13": ("traceback monitor: planted failures with known lines",
         "failing expressions planted at known lines in random layouts"),
 "C14": ("output monitor in node: reference interpreter of template trees",
         "generated modules executed in node and compared with an independent interpreter"),
 "C15": ("output monitor in node: independent escaping oracle over hostile values",
         "values, types and positions sampled"),
 "C16": ("differential monitor: plain, minified and command line compiled modules",
         "templates and options sampled"),
 "C17": ("gettext call log and output against a model; agreement with extractors",
         "templates and catalogues sampled; lookup log compared with extraction"),
 "C18": ("output monitor: reference interpreter and equivalent Tonnikala template",
         "templates sampled in both syntaxes"),
 "C19": ("output monitor: scope resolution oracle",
         "arrangements of bindings of few names sampled against a scope model"),
 "C20": ("metamorphic output monitor: layouts of the same template",
         "several layouts of each sampled template compared"),
 "C21": ("metamorphic output monitor: constants against context values",
         "sampled templates including sizes around the grouping limits"),
 "C22": ("output monitor: in-process Pyramid applications against a model",
         "settings, layouts and request histories sampled"),
 "C23": ("differential monitor: solitary loads in other processes against histories, threads and interrupted loads",
         "histories, interruptions and schedules sampled; compared with loads in processes of their own"),
 "C24": ("weak reference, traced memory and open file monitors",
         "renders and loads of sampled templates observed; retention of values that cannot be watched only by growth"),
 "C25": ("event log monitor: evaluations, conversions, decisions and iterations against an interpreter",
         "logs of sampled templates compared event by event; strip conditions and defaults are not logged"),
}
checks = []
for i, (technique, note) in sorted(T.items()):
    if not os.path.exists(os.path.join(HERE, "tkverif", "checks", i.lower() + ".py")):
        continue
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i,
                   "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": technique, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "Runtime monitoring; see DESIGN.md. No hooks in /repo: the monitors observe public results, exceptions, files and the memory of the process."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks")
