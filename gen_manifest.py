#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
T = {
 "C01": ("property-based testing: generated and enumerated blocks against an independent reference decoder",
         "All pairs of values of each endpoint channel in both orders and every value of every index byte are enumerated; whole blocks are sampled."),
 "C02": ("property-based testing: generated and enumerated blocks against an independent reference decoder",
         "All 65536 endpoint pairs of a channel block are enumerated with all eight indices; index layouts are sampled."),
 "C03": ("property-based testing: generated images against a per-block model, guard bytes, serial and parallel build",
         "Sizes 1x1 to 20x20 enumerated in every format; larger ones, single lines of over 2^24 pixels, contents and buffer surpluses sampled."),
 "C04": ("property-based testing: generated images against a per-block model, serial and parallel build",
         "Sizes 1x1 to 14x14 enumerated in every format; larger ones, single lines of over 2^24 pixels, contents and parameters sampled."),
 "C05": ("property-based testing: generated and enumerated sizes and buffer lengths against an arithmetic model",
         "Sizes 0x0 to 130x130 enumerated, up to 2^30 a side sampled; buffer lengths sampled."),
 "C06": ("property-based testing: metamorphic (pairs of blocks that agree on the mask)", "Sampled blocks, masks, formats and parameters."),
 "C07": ("property-based testing: predicate on decoded BC1 blocks", "Sampled blocks, masks and parameters."),
 "C08": ("property-based testing: nearest-level reference", "Every alpha value occurs at every position; neighbourhoods are sampled."),
 "C09": ("property-based testing: reference codebooks and nearest-entry oracle", "Sampled channels, biased to few, close and extreme values."),
 "C10": ("property-based testing: losslessness predicate, enumerated pairs", "All pairs of values are enumerated; arrangements and triples are sampled."),
 "C11": ("property-based testing: brute-force optimum over endpoint pairs as oracle", "All 256 values of each channel enumerated with the others sampled; the thorough run enumerates all 2^24 colours."),
 "C12": ("property-based testing: generated pairs of representable colours, losslessness oracle", "Sampled pairs, arrangements and weights."),
 "C13": ("property-based testing: nearest-entry predicate and f64 eigen-decomposition as oracle", "Sampled blocks; where the principal axis is ill-conditioned the oracle accepts the whole uncertainty of the axis."),
 "C14": ("property-based testing: f64 exhaustive partition search as reference model", "Sampled blocks; float tolerance 4e-6 of the total energy, axis uncertainty accepted."),
 "C15": ("property-based testing: differential (iterative against plain cluster fit)", "Sampled blocks and weights; float tolerance."),
 "C16": ("property-based testing: metamorphic relations between formats and channels", "Sampled blocks and parameters."),
 "C17": ("property-based testing: metamorphic relations between parameter sets", "Sampled blocks and parameters."),
 "C18": ("property-based testing: differential between serial process, thread pools of 1 to 16 and repeated runs", "Sampled images, call histories, pool sizes and concurrent threads; schedules are those the operating system gives."),
 "C19": ("property-based testing: round trip decode, compress, decode", "All 65536 endpoint pairs of a channel block are covered, indices sampled."),
 "C20": ("property-based testing / fuzzing with overflow checks and debug assertions on", "Sampled inputs with non-finite and extreme weights; images up to moderate size; a case that keeps a thread busy for 90 s counts as a hang."),
 "C21": ("property-based testing: fixed-point predicate on batches of blocks, f64 partition search as reference model",
         "Sampled blocks; up to 2.5% of a batch may look unfinished, as the number of rounds the real search takes is only modelled."),
 "C22": ("property-based testing: generated amounts of missing and surplus data, refusal and no-influence predicates, serial and parallel build",
         "Sampled images up to 60x60, amounts and parameters; a refusal is a panic."),
 "K01": ("property-based testing of the binary: PNGs of every kind from an own encoder against a pixel model", "All 15 colour type and depth pairs with and without interlacing and transparency enumerated, the rest sampled; up to 2300x2300 and 70000 pixels long."),
 "K02": ("property-based testing of the binary: JPEGs from an own encoder against a decoded-pixel model", "Sampled baseline and progressive JPEGs up to 2600x2600 and 65535 long; the inverse transform is that of the decoder crate."),
 "K03": ("property-based testing of the binary: generated DDS files against a pixel model", "Sampled headers and payloads, up to 3000x3000 and 140000 pixels long."),
 "K04": ("property-based testing of the binary: generated command lines against a parameter model", "Sampled option combinations, valid and invalid."),
 "K05": ("property-based testing of the binary with fault injection: damaged files, full disk, file size limits", "Sampled damages, unsupported kinds, permissions and write faults, as an unprivileged user; a run must end within 60 s."),
 "K06": ("property-based testing of the binary: own DDS header parser as oracle", "Sizes 1x1 to 13x13 enumerated in every format, others sampled, lines to 1000001 pixels."),
 "K07": ("property-based testing of the binary: generated names and folders, snapshot oracle", "Sampled names (also not UTF-8), folders, existing files, PNG, JPEG and DDS inputs."),
 "K09": ("property-based testing of the binary: batches of concurrent and repeated runs against the library and a snapshot of the folders", "Up to eight different runs at once; schedules are those the operating system gives."),
 "K10": ("property-based testing of the binary with injected faults: a preloaded library that divides, fails or interrupts file accesses and shifts the clock, against an undisturbed run",
         "Sampled conversions up to 150 pixels long, piece sizes, clocks and one failing access per run, as an unprivileged user; accesses are seen at the C library's read, write and open functions."),
 "K11": ("property-based testing of the binary: generated command lines and standard streams against the library and a snapshot of the folder",
         "Sampled command lines, every kind of stream in each place; sampled help and version requests."),
 "K08": ("property-based testing of the binary: chained conversions against the library round trip", "Sampled images, formats and parameters, up to 140000 pixels long."),
}
import os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for i in ids:
    if i == "N01":
        m["not_applicable"].append({"property": i, "reason": "A property of how the crate is built for targets without std: there is no input, history or schedule to generate; only compiling for such a target (none is installed) or reading the source decides it."})
        continue
    t, n = T[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    print("written")
