#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. usage: gen_manifest.py  (claims the properties that the built harness lists)"""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = "runtime monitoring of the real code: "
NOTE = {
 "C01": (T + "recorded row events checked offline against a stable-merge model", "Every generated run is judged exactly; unsampled runs are not covered. Trusts the harness model and the csv/dc formats used for the command line runs."),
 "C02": (T + "recorded row events checked against an interval-selection model", "As C01."),
 "C03": (T + "complete event sequence at all steps of random graphs checked against a recursive model", "Every generated graph and run is judged exactly, including order across steps, headers and flushes."),
 "C04": (T + "width and column monitor on every delivered row; differing headers must be rejected", "Judged exactly per run; differences are one position at a time."),
 "C05": (T + "filter chains checked against a model evaluation", "Judged exactly per run."),
 "C06": (T + "round trip of random and boundary tables through library and tool", "Judged bit for bit per table."),
 "C07": (T + "byte-exact comparison with an independent encoder and decoder, cross-read of dcgen output", "The independent codec is trusted; it was written from the format description."),
 "C08": (T + "differential reading of plain and compressed data, encoders independent of the code under test", "Encoders (flate2, lz-fear, system zstd, own lz4/LZ4Block/lzf/zip writers) are trusted."),
 "C09": (T + "every truncation point and sampled corruption injected, outcome monitor", "All cut points of each generated input are tried for small inputs, sampled ones for larger."),
 "C10": (T + "mutation and structure-aware fuzzing with panic, abort, cpu-time and allocation monitors", "Absence of crashes holds for what was run."),
 "C11": (T + "timestamps checked against an independent calendar and time zone oracle", "Zone offsets come from the chrono-tz database, calendar arithmetic is the harness' own."),
 "C12": (T + "printed times parsed back and checked against an independent calendar oracle", "As C11."),
 "C13": (T + "selection behaviour around the written instant checked against an independent oracle", "As C11."),
 "C14": (T + "rows read checked against the table that the csv text was rendered from", "The renderer is the harness' own."),
 "C15": (T + "output parsed and checked cell by cell", "Floats are judged by parsing back with the standard library."),
 "C16": (T + "rows of directories checked against a by-name model", "Judged exactly per run."),
 "C17": (T + "differential reading of the same content under all ways to tell the format", "Reference is the reading with an unmistakable file name."),
 "C18": (T + "differential reading under enumerated and random read sizes", "Reference is reading in one piece; sizes around the preview boundary are enumerated."),
 "C19": (T + "fault injected at every read call, row and flush; failing outputs at the operating system level", "Faults are enumerated per generated input; inputs are sampled."),
 "C20": (T + "lookahead and allocation monitors over unending inputs", "Bounds are checked for the generated formats and sizes."),
 "C21": (T + "exit status, standard output and error of the built tool checked against the command line contract", "Judged per generated command line."),
 "C22": (T + "loopback http server with chosen framing and cut-offs, differential against local files", "Only plain http over loopback."),
 "C23": (T + "chosen column observed through timestamps and checked against a model of the documented priority", "Judged exactly per header."),
 "C24": (T + "results compared with a naive model", "Judged exactly per input."),
 "C25": ("AddressSanitizer and MemorySanitizer builds (std and bundled C code included) and Miri interpreter over hostile workloads, UTF-8 monitor on delivered text", "Detects what happens in the executions run; leaks are not judged."),
 "C26": (T + "observed zone checked against precedence model", "Judged per configuration."),
 "C28": (T + "processor time and allocation meters over pairs of runs of growing size", "Judges the order of growth between a size that takes milliseconds and eight times that size, repeatedly; quadratic parts that are a small share of the cost at these sizes go unnoticed."),
 "C29": (T + "snapshots of all files around each run, record of the calls that open or alter files, start programs or connect, differential outputs over environments", "Calls are recorded where they pass libc; what is judged is what happened in the runs."),
 "C27": (T + "recording factories and transports at the extension points", "Judged per configuration."),
}
out = subprocess.run([here + "/.build/debug/vh", "list"], capture_output=True, text=True, check=True).stdout
levels = {l.split()[0]: l.split()[1] for l in out.splitlines() if l}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in levels:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": levels[i], "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "Known and fixed defects are listed in known_findings.txt. No hooks are needed: all monitors sit at public extension points, at the operating system boundary or in the build."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
