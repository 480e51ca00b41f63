#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("calendar odometer monitor over day sweeps, under ASan/UBSan", "Every day of the swept years is judged against an independent day counter; years outside the sweep are sampled. Trusts the odometer."),
 "C02": ("day-count oracle over day sweeps and conversion routes, under ASan/UBSan", "Every day of the swept years over every route; far years sampled."),
 "C03": ("validity oracle and exception monitor over boundary grids and random integers, under ASan/UBSan", "Complete near the month and year boundaries of all kinds of years, sampled over the rest of the integers."),
 "C04": ("normalization invariant and 128-bit conservation monitor on constructors and histories, under UBSan", "Invariant and exact total watched after every construction and every step; amounts and histories sampled with boundary bias."),
 "C05": ("differential monitor between constructors and accessors against an instant model", "All constructors and accessors on sampled instants, all resolutions; not exhaustive over days times units."),
 "C06": ("online model monitor (128-bit) over random operation histories, under UBSan", "Every step of every history is judged; histories are sampled."),
 "C07": ("128-bit difference oracle over all nine resolution pairs, antisymmetry and chain monitors", "Sampled pairs and triples, boundary biased up to capacity."),
 "C08": ("order oracle over grids, pairs and sorted lists, all six operators", "All pairs of the grids, sampled pairs beyond."),
 "C09": ("128-bit conversion oracle up to the limits of the type, under UBSan", "Sampled amounts with all power-of-two and unit boundaries; all nine pairs."),
 "C10": ("recombination and range monitors over exhaustive seconds and swept finer amounts", "Exhaustive for days of seconds (and a day of milliseconds in the thorough tier), sampled beyond."),
 "C11": ("week arithmetic oracle and round-trip monitor over every day since the GPS epoch", "Every day of two millennia with boundary times of day, sampled instants beyond."),
 "C12": ("IERS table oracle on every day, month and leap boundary, three forms", "Complete over the days 1972 to 2028 and beyond, and over all months to the year 100000; times of day sampled and swept near changes."),
 "C13": ("constructed-text oracle over generated date strings, under ASan", "Strings are generated from known fields; delimiters and millisecond fractions complete, the rest sampled."),
 "C14": ("AddressSanitizer/UBSan on exact-size buffers with truncation, mutation, hostile and coverage-guided (libFuzzer) strings; every outcome judged by an independent grammar", "All cuts of the generated strings and all tiny strings over an alphabet; other strings sampled. Out-of-bounds reads are those ASan red zones catch."),
 "C15": ("independent parser of formatted text and read-back monitor", "Delimiters and millisecond fractions complete, days of a century (or of all years, thorough), the rest sampled."),
 "C16": ("name oracle over all case variants, short strings and edits, under ASan", "All case variants, all printable strings of up to three characters and of four letters in one case; longer ones sampled."),
 "C17": ("integer model monitor over operation histories of the eleven unit types, under UBSan", "Every step judged; histories and values sampled with boundary bias."),
 "C18": ("128-bit division oracle, under UBSan", "Grids of remainders and sampled dividends and divisors up to capacity."),
 "C19": ("ThreadSanitizer with 8 threads plus result comparison against fresh-process, before-main and single-thread runs, stale errno injected", "Races and differences on the schedules and histories that occurred; the number of overlapping operation pairs is in the evidence."),
 "C20": ("113-bit arithmetic oracle and monotonicity monitor", "Sampled amounts and instants with boundaries and sweeps; tolerance three units in the last place."),
 "C21": ("result digests of the same operations compared across compilers, options and sanitizer builds; memcheck", "Same seeded operations in 8 (thorough: 12) builds; undefined behaviour as far as ASan, UBSan, memcheck and assertions detect it."),
 "C25": ("fault injection (each allocation refused in turn) with outcome and leak monitors", "Every allocation of each sampled call is refused, once and from there on; calls and arguments sampled. Termination is seen as a crash."),
 "C26": ("page-protection monitor (read-only operands and texts between unmapped pages), aliasing comparison, output and open-file meter", "Operands and texts sampled; every write to a const operand or a text, and every access beyond a text, faults."),
 "C24": ("step, allocation and stack meter (basic-block instrumentation and allocator interposition) with leak monitor", "Sampled arguments of every magnitude up to the limits, texts up to 200 000 characters, two builds; steps inside the runtime libraries are seen only by the time limit."),
 "C23": ("differential monitor between locales (C and C++) and time zones, write/read round trips across them", "Eight compiled locales set in five ways two own-facet C++ locales and seven time zones; calls and texts sampled."),
 "C27": ("model monitor over histories of a population of objects, each compared with a newly made equal object through every accessor", "Every object judged after every step; histories sampled."),
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": k, "quick_cmd": "VERIF_TIER=quick python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
                 "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": "C22", "reason": "The property is about programs that must not compile: there is no execution for a runtime monitor or sanitizer to observe."}],
     "notes": "No hooks: the monitors drive the public interface and are compiled together with the library sources of /repo's working tree. Design and findings: DESIGN.md, known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
