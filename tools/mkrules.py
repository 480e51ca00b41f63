#!/usr/bin/env python3
"""Writes /verif/rules.json: per property, how cases are made and judged, what
the monitors must have seen for the run to count, and what is assumed."""
import json, os
COMMON = ["64-bit long, IEEE double, C locale", "GCC/Clang sanitizers report the undefined behaviour they cover",
          "the oracles of mon/oracle.hpp (day counting, 128-bit totals, published tables) are right"]
R = {}
def r(id, rule, must=(), assumptions=()):
    R[id] = {"rule": rule, "must_see": list(must), "assumptions": COMMON + list(assumptions)}
r("C01", "Consecutive-day sweeps against a calendar odometer, far dates to millions of years and 400-year-shifted dates against day counting; every case is a distinct date, non-trivial by construction.", ["consecutive days swept", "leap years seen", "far dates", "published constants"], ["years before -4799 are out of scope (documented limit)"])
r("C02", "Consecutive-day sweeps and far dates; each date is converted over every pair of the three forms and by routes through a datetime; every case is a distinct date.", ["consecutive days swept", "far dates"], ["an out-of-range day of year is not a date"])
r("C03", "All month/day/day-of-year combinations around the valid ranges over all year classes, and random integers; judged against the month table; constructions must succeed or throw accordingly.", ["impossible dates refused", "valid dates constructed"])
r("C04", "Every constructor with amounts from sub-unit to the capacity limits, both signs, exact day multiples +-3 units, and random histories; non-trivial when the given time is negative or a day or more.", ["clock readings around the end of a day", "objects with negative time given", "objects spanning more than a day", "history steps"], ["amounts whose total cannot be represented are out of scope"])
r("C05", "The same instant built through every constructor (and from nothing: J2000, in dirty memory) and read back through every accessor; dates and times of day boundary biased, all resolutions, finer time types; the same instants given from another day (24 h, 1440 min, a day of seconds and multiples), and any real number of seconds; non-trivial cases have distinct arguments.", ["made from nothing", "times of day", "finer time given", "given from another day", "real numbers of seconds given"])
r("C06", "Random histories of additions and removals in mixed resolutions against a 128-bit model, boundary steps around midnight, and histories undone in another order; a step is non-trivial when its amount is not zero.", ["whole-unit steps", "fractional steps", "histories", "histories undone", "new datetimes returned"], ["the step together with a time of day is representable"])
r("C07", "Pairs (all nine resolution pairs) and triples of instants: equal, adjacent, across midnight, years and the capacity; judged against 128-bit differences; non-trivial when the instants differ.", ["differences that fit no amount of seconds", "chains"], ["the difference is representable at the resolution"])
r("C08", "All pairs of grids of instants around midnight and day zero, random pairs and sorted lists; six operators judged against 128-bit totals.", ["lists sorted"])
r("C09", "Amounts over the whole type at both signs and all nine pairs, and datetimes; judged in 128-bit arithmetic.", ["exact (finer) conversions", "explicit conversions"], ["source and result are representable"])
r("C10", "Exhaustive seconds and swept milliseconds/microseconds, boundary multiples and random amounts; each split is checked by ranges and by recombination; non-trivial when the amount is at least one second (24 hours for hour values).", ["splits into h:m:s+f", "whole days removed"], ["amounts are not negative; counts of hours and days fit an int"])
r("C11", "Every day since the GPS epoch, seconds of selected weeks, far instants; judged by week arithmetic and the round trip.", ["consecutive days"], ["instants before the GPS epoch are out of scope"])
r("C12", "Every day since 1972 by all three forms and all resolutions, every month to the year 100000, every unit around each announced leap second; judged against the IERS list.", ["consecutive days", "leap seconds observed", "months"], ["dates before 1972 are out of scope"])
r("C13", "Strings built from known fields (the oracle never parses): formats, delimiters, padding, letter case, 0..25 fraction digits, trailing text, each read at every resolution with and without the stop pointer; numbers preceded by blanks or a plus sign, refused or read as spelled.", ["fractions below the smallest double", "delimiter bytes", "milliseconds of a minute", "microseconds of a minute"])
r("C14", "Well-formed strings cut at every length, mutated, with hostile numbers, and arbitrary bytes, each in an exact-size heap block under AddressSanitizer and again elsewhere with other errno and surroundings; further strings are put together by libFuzzer from the coverage of the readers. A grammar of the formats, which calls nothing of the library, says of each string whether it must be refused, spells an instant, names an impossible date or is in between. Distinct cases are distinct (reader, resolution, string).", ["arbitrary strings", "strings put together by coverage", "strings found malformed by the grammar", "strings found well formed by the grammar", "strings found to name an impossible date"])
r("C15", "Instants formatted by the three writers, the text parsed by the oracle's own parser, compared with the instant's fields and read back.", ["texts formatted and read back", "delimiter bytes", "years before 0", "years beyond 9999"], ["years 0..9999 whole, up to year 985000 sampled; stringify from year -4799"])
r("C16", "All letter-case variants of the 24 names, all strings of up to three letters, one-byte edits and random strings.", ["month names resolved", "other strings refused"])
r("C17", "Each of the eleven types against a 128-bit integer model: boundary pairs and random operation histories.", ["comparisons", "history steps", "sums", "assignments of integers", "literals", "defaults"], ["operations that overflow are out of scope"])
r("C18", "Grids of days, times and divisors with remainders, day-count multiples, capacity-sized dividends and random cases; judged by 128-bit division; non-trivial when the dividend is not zero and the divisor not one.", ["truncated quotients", "exact quotients"])
r("C19", "Operations of 22 kinds given by (kind, seed): executed in fresh processes, before main (in a constructor that runs before those of the library's files), in shuffled histories with failed calls and stale errno values between, and by 8 threads in different orders (also as the first use of the library), and one call after the other by the million with few arguments, results compared call by call; ThreadSanitizer watches the threads. Distinct cases are distinct (operation, errno) executions compared.", ["calls in a fresh process", "calls in histories", "calls made concurrently", "cold starts", "calls made before main", "views of shared objects", "calls of few arguments", "distinct pairs of operations seen overlapping"], ["schedules are those the scheduler produced, stressed by 8 threads"])
r("C20", "Amounts over the whole type, instants boundary biased, ordered pairs one unit apart and sweeps, the Julian Day of consecutive and of far days; judged in 113-bit arithmetic.", ["ordered pairs", "fractions split off", "julian days"])
r("C21", "The same seeded operations of 22 kinds executed in every listed build, result digests compared call by call; sanitizers, debug assertions and memcheck watch each.", [], ["no -march/-ffast-math options; x86-64"])
r("C23", "The same calls made in the C locale and in each of the locale settings listed by the events (C library for the process, for the thread, by category; C++ global locale, named and with own punctuation) and in several time zones (TZ), and in new processes whose environment names a locale and a time zone, results compared; texts written in one locale and read in another, well-formed texts judged by what they spell, and texts with bytes that some locale treats specially. Non-trivial: every case runs in a locale other than C or a time zone other than UTC.", ["runs with another decimal point (C library)", "runs with digit grouping (C++ library)", "runs where the lower case of I is not i", "runs with another decimal point (C++ library)", "texts written in one locale and read in another", "well-formed texts read in another locale", "month names looked up in another locale", "round trips by threads in different locales", "calls in processes started in another environment"], ["the locales are those localedef compiles from the installed sources, and two made of own facets"])
r("C24", "Every call is made three times under a meter of executed basic blocks, allocated and released bytes and stack depth, with arguments of all magnitudes up to the limits and texts of 0 to 200 000 characters; the third call is judged: at most 20 000 steps plus 200 per character, 20 000 bytes plus 64 per character allocated, 64 KiB of stack, and nothing kept by both the second and the third call; nor may the memory kept by all calls of one operation grow with the number of different arguments. Distinct cases are distinct arguments.", ["calls metered", "calls that ended by an exception", "texts of a thousand characters or more", "seeded operations", "operations watched for growth"], ["steps are those of the library and the templates it instantiates; steps inside the C and C++ runtime libraries are not counted (a CPU-time limit covers those)"])
r("C25", "Readers, month names, writers, constructors and arithmetic, on well-formed, malformed and impossible arguments, with every allocation of the call refused in turn (once, and from there on), in an unused process and after use; the outcome must be the normal one or a report of the lack of memory, the bytes held must be as before, and the next call must be normal. Distinct cases are distinct (operation, text, refused allocation).", ["allocations refused", "calls that ended by bad_alloc", "first calls with an allocation refused"], ["allocations go through malloc; exceptions come from the reserve of the C++ runtime when malloc fails"])
r("C26", "Pairs of operands of 16 types put in read-only pages, compared with the same operations on ordinary copies; the same object on both sides, compared with two equal ones; texts that end (and texts that begin) at an unmapped page, in read-only pages. A write or an access outside is a fault that ends the process and is reported. Seeded operations of 22 kinds are run with the standard output in a memory file: nothing may be written to it or to the error stream, no file left open; the settings of the process (locale, environment, signals, rounding, directory, handlers, streams) are compared before and after, and calls that change what other threads see (setlocale, setenv, opening a file for writing...) are counted. Once with the default settings and once with others. Distinct cases are distinct operands and texts.", ["operand pairs in read-only memory", "pairs that are one object", "texts read from read-only memory", "texts refused in read-only memory", "names in read-only memory", "calls watched for output", "settings compared", "passes with other settings"], ["page protection works"])
r("C27", "Populations of up to ten datetimes (and of intervals) taken through random steps (copies, moves, assignments, swaps, sorts, in-place operations, texts, conversions, inspections); after each step every object is compared with its 128-bit model, and those concerned, through every accessor, with a newly made equal one. Distinct cases are distinct (step, instant).", ["steps", "objects looked at", "texts compared", "interval steps", "swap", "+= interval", "sorting", "reading its own text"])
json.dump(R, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rules.json"), "w"), indent=1)
