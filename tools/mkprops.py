#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
FH,FC,CAL,DAT,RD,WR="src/dtfund.hpp","src/dtfund.cpp","src/dtcalendar.hpp","src/dat.cpp","src/datetime_read.hpp","src/datetime_write.hpp"

p("C01","Calendar dates and Modified Julian Days are one exact bijection",
  "For every valid Gregorian (proleptic) calendar date of year -4799 or later, the Modified Julian Day is the exact day count from 17 November 1858 (day 0), so consecutive dates get consecutive numbers across every month end, leap day, century and year zero. Converting the number back gives exactly that year, month and day, a year is leap exactly by the 4/100/400 rule, and the Julian Day is the Modified Julian Day plus 2400000.5. The epochs and constants the library publishes are those of this calendar.",
  ["inputs"],"every calendar date from -4799-01-01 on (up to millions of years ahead) and every day number of that range, in both directions",
  "The tests convert about twelve hand-picked dates (1 January of a few years); the formulas are piecewise over months, centuries and 400-year cycles and the range has millions of days.",
  [FH,FC],[("calendar date to MJD formula",FC+": cal2mjd"),("MJD to calendar date formula",FC+": modified_julian_day::to_ymd"),("leap year rule",FH+": is_leap"),("datetime date accessor",CAL+": as_ymd")],
  observe=["year/month/day triples and MJD numbers at the public conversion functions"])
p("C02","Day-of-year dates agree with calendar dates and MJD in every direction",
  "For every date of year -4799 or later, the (year, day of year) form, the calendar form and the Modified Julian Day name the same day: converting between any two of the three, in either direction and through any route (including via a datetime), gives the value obtained by counting days from 1 January (day 1) of that year. The resulting day of year lies in 1..365, or 1..366 in a leap year.",
  ["inputs"],"every day of the supported years, every pair of the three representations, every route",
  "The tests use three day-of-year values in 1901-2099 and never the calendar/day-of-year conversions; month boundaries, leap years, centuries and years outside 1901-2099 are untested.",
  [FC,FH,CAL],[("year and day of year to MJD",FC+": ydoy2mjd"),("MJD to year and day of year",FC+": modified_julian_day::to_ydoy"),("month table",FC+": ymd_date::to_ydoy, ydoy_date::to_ymd"),("datetime accessor",CAL+": as_ydoy")])
p("C03","Validity predicates are exact and impossible dates are refused by exception",
  "A month, day of month, day of year, calendar date or GPS week reports itself valid exactly when it exists in the (proleptic) Gregorian calendar, respectively when the week is not negative. Constructing a Modified Julian Day or a datetime from a calendar date succeeds for every valid date and raises a catchable exception for every date whose month or day of month does not exist; it never returns some other date and never ends the process.",
  ["inputs"],"all integers as year, month and day, in all combinations and for all constructors taking a calendar date",
  "The tests check a handful of day-of-month and day-of-year values in 2016/2017 and never construct from an invalid date.",
  [FH,FC,CAL],[("validation",FC+": cal2mjd, day_of_month::is_valid"),("predicates",FH+": month::is_valid, day_of_year::is_valid, gps_week::is_valid, ymd_date::is_valid, ydoy_date::is_valid"),("constructors from calendar date",CAL+": datetime::datetime")])
p("C04","Every datetime and interval is normalized, and normalizing keeps the instant",
  "However a datetime or an interval is produced (any constructor, with any amount of hours, minutes or seconds, negative or spanning many days, up to the advertised day capacity of the resolution; a conversion; or a preceding history of operations), its time part is at least zero and less than one day of its resolution. The days and time part together always amount to exactly the total that was given: excess or missing days move to the day count and nothing is lost.",
  ["inputs","histories"],"all day counts and time amounts within the advertised capacity, all constructors, all operation histories",
  "The tests only construct times within one day, and check days removed for two values; sign changes, exact day multiples, multi-day and capacity-sized amounts at each resolution are not sampled.",
  [CAL,FH],[("normalization",CAL+": datetime::normalize, datetime_interval::normalize"),("constructors",CAL),("capacity",FH+": max_days_allowed")],
  state=[("m_sec / m_secs","time of day in units of the resolution, in [0, one day)",CAL),("m_mjd / m_days","day count",CAL)])
p("C05","All ways to construct a datetime agree on the instant and its fields",
  "A datetime built from calendar date and time, from year, day of year and time, from Modified Julian Day and time, from GPS week and seconds of week, with the time given as hours/minutes/seconds, as one amount of seconds or as fractional seconds, is the same instant whenever the arguments denote the same instant. Time given in a finer resolution is truncated to the datetime's own, and the accessors (MJD, calendar date, day of year, hours/minutes/seconds/fraction, time of day) read back exactly the fields of that instant. One made from nothing is the start of the day of the J2000 epoch, an interval made from nothing is empty.",
  ["inputs"],"all dates, times of day and pairs of resolutions, all constructors",
  "The tests compare a few constructors on the single date 30 December 2015 and print most results without checking them.",
  [CAL,FH],[("constructors",CAL+": datetime::datetime"),("time from hours, minutes, seconds",FH+": seconds, milliseconds, microseconds constructors"),("accessors",CAL+": mjd, sec, sec_as_i, as_ymd, as_ydoy, as_hmsf")])
p("C06","Adding and removing time moves a datetime by exactly that time",
  "Along any sequence of additions and removals of time (in the datetime's own, a coarser or a finer resolution, by interval, or by days and time; of either sign and of any size that can be represented together with a time of day), the instant is the exact sum of the steps whenever each step is a whole number of units of the datetime's resolution, so removing what was added restores the original. A step that is not a whole number of units leaves the datetime less than one unit away from the exact sum. Operations documented to return a new datetime leave the original unchanged.",
  ["histories","inputs"],"all sequences of add/remove operations, mixed resolutions, amounts from sub-unit to many years, crossing any number of midnights, months and years in either direction",
  "One test adds single seconds for 2.5 days and adds/removes random whole seconds within a week at one resolution; other resolutions, mixed resolutions, intervals and long histories are never checked.",
  [CAL],[("same resolution",CAL+": datetime::add_seconds, remove_seconds"),("mixed resolution by tag dispatch",CAL+": __add_seconds_impl, __remove_seconds_impl"),("days and time",CAL+": datetime::add"),("interval",CAL+": datetime::operator+=")])
p("C07","Differences of datetimes are exact and invert addition",
  "For any two datetimes, of the same or of different resolution, the difference in seconds is the exact signed elapsed time in the finer of the two resolutions; it is antisymmetric, and chains (a-b plus b-c equals a-c). The difference as days and time is normalized, denotes the same elapsed time, and added to the second datetime gives the first.",
  ["inputs"],"all pairs and triples of instants up to the capacity of the resolution, all nine pairs of resolutions, either order",
  "The tests subtract four datetimes that lie within a millisecond of each other on one day; the day part of the difference is never checked.",
  [CAL,FH],[("difference in seconds",CAL+": delta_sec (member and three free overloads)"),("difference as interval",CAL+": delta_date"),("day difference",FH+": mjd_sec_diff")])
p("C08","Comparison of datetimes and intervals is chronological order",
  "For datetimes (and for intervals) of one resolution, all six comparison operators agree with the order of the instants (elapsed times) they denote: exactly one of less, equal and greater holds, and each operator is consistent with the others. Hence sorting by them gives chronological order, and every datetime lies between the advertised minimum and maximum.",
  ["inputs"],"all pairs and sets of instants: equal, adjacent units, same day, adjacent days, same time on different days, far apart, before and after day zero",
  "The tests only use equality on equal datetimes; ordering operators of datetime and interval are never called.",
  [CAL],[("datetime operators",CAL+": datetime::operator== != < <= > >="),("interval operators",CAL+": datetime_interval::operator== != < <= > >="),("limits",CAL+": datetime::min, datetime::max")])
p("C09","Converting between resolutions is exact upward and truncates downward",
  "Converting an amount of seconds, milliseconds or microseconds to an equal or finer resolution is exact, and to a coarser one truncates the fraction toward zero, whenever the source and the result are representable, through every conversion the library offers. Converting a datetime does the same to its time of day and keeps its date, so refining and converting back is the identity and coarsening never moves the instant forward nor by a whole coarser unit.",
  ["inputs"],"all representable amounts (both signs, up to the limits of the type) and instants, all nine pairs of resolutions",
  "The tests convert ten small positive amounts and no datetime.",
  [FH,CAL],[("generic conversion",FH+": cast_to"),("explicit conversion operators",FH+": milliseconds::operator seconds, microseconds::operator milliseconds/seconds"),("datetime conversion",CAL+": datetime::cast_to")])
p("C10","Splitting time amounts into days, hours, minutes, seconds loses nothing",
  "Splitting any non-negative amount of seconds, milliseconds or microseconds into hours, minutes, seconds and fraction gives minutes and seconds in 0..59 and a fraction less than one second, and recombining the parts (also through the constructors taking hours, minutes and seconds) gives the original amount. Removing whole days (or whole hours from minutes, days from hours) returns exactly the whole ones and leaves the remainder, the number of whole days reported agrees with it, and an amount reports more than a day exactly when it exceeds one.",
  ["inputs"],"all non-negative amounts at each resolution, and all hour/minute values",
  "The tests check three amounts of seconds; the millisecond and microsecond splits are separate code and unchecked.",
  [FH],[("splits",FH+": seconds/milliseconds/microseconds::to_hmsf, resolve_sec"),("whole days",FH+": remove_days, to_days, more_than_day, hours::remove_days, minutes::remove_hours"),("recombination",FH+": constructors from hours, minutes, seconds")])
p("C11","GPS week and seconds of week are an exact, invertible form of the instant",
  "For every datetime from 6 January 1980 (week 0, day 0) on, the GPS week is the number of whole weeks elapsed since then and the seconds of week (in whole seconds, or in the datetime's own resolution) the exact remainder, at least 0 and less than one week. Building a datetime from that week and that remainder gives the original instant, also when the remainder exceeds a week, and the day of week is 0 on Sundays through 6 on Saturdays.",
  ["inputs"],"all instants from the GPS epoch on, in every resolution, around every week and day rollover",
  "The tests check one instant (18 March 2019) and never build a datetime from week and seconds of week.",
  [CAL],[("instant to week",CAL+": as_gps_wsow (two overloads)"),("week to instant",CAL+": datetime(gps_week, S)"),("day of week",CAL+": day_of_week"),("epoch",FH+": jan61980")])
p("C12","TAI-UTC is the published leap second count, identically in all three forms",
  "For every date from 1 January 1972 on, the TAI-UTC offset in whole seconds is the one published by the IERS: 10 on that date and one more from midnight of the day following each of the 27 announced leap seconds (the last one, 37, since 1 January 2017). Asking by year and month, by Modified Julian Day or with a datetime of any resolution and any time of day gives the same value, so the offset never decreases and changes only at the start of a January or July.",
  ["inputs"],"every day since 1972-01-01, every time of day at each resolution",
  "One test checks that the three forms agree on nine instants around three of the 28 table entries, and checks no value; the two tables are maintained separately by hand.",
  [DAT,CAL],[("table by year and month",DAT+": dat(year, month)"),("table by MJD",DAT+": dat(modified_julian_day)"),("datetime form",CAL+": dat(datetime)")])
p("C13","Well-formed date strings are read as exactly the instant they spell",
  "Every date string with all fields of its format (year-month-day, year-day of year, either with hours, minutes and seconds, or with a three-letter month name), with any single non-digit characters between the fields, with or without zero padding and in any letter case of the month, is read as exactly the instant it spells; trailing text is ignored. Fractional seconds are exact when they have no more decimal digits than the resolution of the datetime and are truncated to that resolution otherwise. A number preceded by blanks or a plus sign is, if accepted at all, read as what it spells. The reported stop position is the last character interpreted.",
  ["inputs"],"all valid dates and times, formats, delimiters, paddings, letter cases, numbers of decimal digits, resolutions and trailing text",
  "The tests read about fifteen strings of two dates, at most one with a nonzero fraction per resolution; two of the five readers and the stop position are never used.",
  [RD,FH],[("readers",RD+": strptime_ymd, strptime_ydoy, strptime_ymd_hms, strptime_yod_hms, strptime_ydoy_hms"),("fractional seconds",FH+": seconds/milliseconds/microseconds(hours, minutes, double)")])
p("C14","Malformed date strings are refused without touching anything outside them",
  "Whatever null-terminated string is given to a reader, it reads no memory outside the string and has no undefined behaviour; it ends by returning a normalized datetime or by an exception, and which of these and the value returned depend on the characters of the string only. A string that lacks a field of its format (cut short at any point before the last field, or empty), has a non-numeric or unrepresentable number, an unknown month name, or no convertible finite seconds, raises the documented invalid-argument exception; one that lacks nothing is read as what it spells.",
  ["inputs"],"all character strings, in all memory placements",
  "No test passes a malformed string to a reader; the set of strings is unbounded.",
  [RD,FC],[("field parsing and checks",RD+": all readers"),("month name lookup",FC+": month::month(const char*)")],
  observe=["strings placed at the very end of a heap block under AddressSanitizer, repeated with different neighbouring memory"])
p("C15","Formatted datetimes show the instant's fields and read back as the same instant",
  "For every datetime of the years from 0 on and every resolution (by stringify also of the years before), the formatted text shows the calendar date and time of exactly that instant, with every field in its calendar range (seconds never 60), for every date delimiter; the formatting functions pad year, month, day, hours, minutes and whole seconds with zeros to the documented YYYY-MM-DD HH:MM:SS (a year beyond 9999 is shown in full). Reading the text (of the years from 0 on) with fractional seconds back at the same resolution gives the identical datetime, and reading the text with whole seconds gives it truncated to the second.",
  ["inputs"],"all instants from year 0 (stringify: -4799) on at each resolution, all non-digit delimiters, all formatting functions",
  "No test checks formatted output; the tests only print it.",
  [WR,CAL,RD],[("formatters",WR+": strftime_ymd_hmfs, strftime_ymd_hms"),("description",CAL+": datetime::stringify")])
p("C16","Month names resolve case-insensitively, and nothing else resolves",
  "Every English month name, in full or as its first three letters and in any mixture of letter case, resolves to its month, and the short and long names reported for months 1 to 12 are these names and resolve back to the same month. Every other string (shorter, longer, misspelled, or with bytes before, after or in between) raises the documented invalid-argument exception, and no string makes the lookup read outside it.",
  ["inputs"],"all strings",
  "The tests resolve six spellings of July and reject four strings.",
  [FH,FC],[("lookup",FC+": month::month(const char*)"),("name tables",FH+": month::short_name, month::long_name")])
p("C17","Date and time unit types behave as the integers they hold",
  "Each of the eleven unit types (year, month, GPS week, day of month, day of year, Modified Julian Day, hours, minutes, seconds, milliseconds, microseconds) holds the integer it was constructed from or assigned (the documented default when constructed from nothing), and comparison, increment, decimal literals, addition and subtraction in place (by an integer or by the same type), and + and - where offered give what the same operation on the integers gives, along any sequence of operations. Prefix forms return the updated object, postfix forms the value before, and operands other than the target never change.",
  ["inputs","histories"],"all eleven types, all integers of the type that do not overflow, all operation sequences",
  "The tests exercise the operators on a few values near 2019 for some of the types; the rest share templates but differ in underlying type and constructors.",
  [FH],[("generic operators",FH+": operator templates for fundamental types"),("constructors, assignment, accessors",FH),("literals",FH+": operator\"\" _Y _M _D _h _m _sec _millisec _microsec")])
p("C18","Dividing an interval gives the exact quotient at its resolution",
  "For every non-negative interval (up to the advertised day capacity of its resolution) and every positive integer divisor, the quotient is a normalized interval whose total time is the total time of the dividend divided by the divisor, truncated to the resolution. So dividing by one is the identity, a multiple divides back exactly, and the divisor times the quotient never exceeds the dividend nor falls short of it by as much as the divisor in units.",
  ["inputs"],"all non-negative intervals within the capacity of the resolution and all positive divisors",
  "No test divides an interval.",
  [CAL],[("division",CAL+": datetime_interval::operator/"),("normalization",CAL+": datetime_interval::normalize")])
p("C19","Results never depend on history or on other threads",
  "Every operation gives the same result for the same arguments, whatever calls (successful or failed) were made before in the process, whatever the calling thread's error indicator held, and also before main begins (in the constructors of global objects). Threads that use the library at the same time on distinct objects, or share objects they only read, cause no data race and get the results a single thread would get.",
  ["histories","schedules"],"all prior call histories (including failed reads and stale error numbers), all thread interleavings",
  "The tests are single-threaded and start from a fresh process; schedules and call histories cannot be sampled by a fixed sequence.",
  [RD,WR,FC,DAT,CAL],[("absence of shared mutable state","all functions; constant tables in "+FC+", "+DAT),("error number handling",RD+": errno use in the readers"),("local string streams",WR+": _d2s_, _i2s_")],
  observe=["results recorded at the call boundary per thread; ThreadSanitizer reports"])
p("C20","Floating-point views of dates and times are accurate and monotone",
  "The fractional Modified Julian Date of a datetime or interval, the Julian Day of a day, and the fractional days and fractional seconds of a time amount, equal the exact rational value to within a few units in the last place of a double, and the part of an amount split off as fractional seconds is less than one second and recombines to the amount. They are monotone: a later datetime or day never has a smaller one.",
  ["inputs"],"all instants and amounts within capacity, at each resolution",
  "The tests compare the fractional date of one addition of 2.5 days and three amounts of seconds.",
  [CAL,FH],[("fractional date",CAL+": datetime::as_mjd, datetime_interval::as_mjd"),("fractional amounts",FH+": fractional_days, to_fractional_seconds, resolve_sec")])
p("C21","Every build configuration computes the same, free of undefined behaviour",
  "Compiled with or without the debug option, at any optimization level and by different compilers, the library gives identical results for the same valid arguments, and its debug assertions never fire on valid arguments. No operation on valid arguments executes undefined behaviour or accesses memory outside its objects.",
  ["configurations","inputs"],"production and debug configurations, optimization levels, compilers, sanitizer builds; API-wide operation sequences on valid arguments",
  "The tests run in one configuration (debug, one compiler) without sanitizers, on a few inputs.",
  [FC,FH,CAL,RD,WR,DAT],[("debug-only code",FC+", "+CAL+", "+RD+": #ifdef DEBUG"),("integer and floating-point conversions",FH+", "+CAL)])
p("C22","Mixing incompatible unit types is rejected at compile time",
  "A program that mixes different unit types, or a unit type and a plain integer, in an operation that is not offered (adding an integer to a date type with +, constructing an explicit type implicitly, adding milliseconds to seconds in place, converting to a finer resolution implicitly) does not compile.",
  ["programs"],"all programs using the library",
  "The must-not-compile variants cover some 21 expressions on a few of the types.",
  [FH,CAL],[("explicit constructors, deleted operators, constrained templates",FH)])
p("C23","Results do not depend on the locale nor on the time zone",
  "Whatever locale is in force (the C library's for the process or for the calling thread, in any category, or the global C++ locale), and whatever the time zone of the process is, every operation gives the result it gives in the C locale and in UTC: formatted datetimes have plain digits and a decimal point, date strings are read as the instant they spell, the same malformed strings are refused, and month names resolve in every letter case. Text written under one locale is read back as the same instant under any other.",
  ["inputs","configurations"],"all locales and ways to set them, all time zones, all operations, instants and strings",
  "The tests only ever run in one locale and time zone.",
  [RD,WR,CAL,FC],[("number parsing",RD+": all readers"),("number formatting",WR+": _d2s_, _i2s_; "+CAL+": datetime::stringify"),("letter case",FC+": month::month(const char*); "+RD+": strptime_yod_hms")])
p("C24","Every operation takes bounded work and leaves nothing behind",
  "Whatever the magnitude of the arguments (days, hours, seconds, microseconds, years or weeks up to the limits of their types), constructing, normalizing, adding, subtracting, converting, splitting, comparing and writing end after a small bounded number of steps that does not grow with the magnitude. Reading a text ends after a number of steps proportional to its length. No operation uses more than a small bounded stack, and none leaves memory behind, also not when it ends by an exception.",
  ["inputs","history"],"all operations, arguments of every magnitude up to the limits, texts of any length",
  "The tests use dates of a few years and texts of a few dozen characters, and observe neither the work done nor the memory kept.",
  [CAL,FC,FH,RD,WR,DAT],[("normalization",CAL+": normalize, constructors, add, add_seconds, remove_seconds"),("calendar arithmetic",FC+": cal2mjd, mjd2ydoy, to_ymd"),("text",RD+": all readers; "+FC+": month::month(const char*)"),("table search",DAT)])
p("C25","Running out of memory is reported, never hidden",
  "When memory cannot be allocated during an operation, the operation ends by an exception that says so (std::bad_alloc) or does without and gives its normal result: it never gives a different result, never reports a well-formed text as malformed, never terminates the program, and leaves no memory behind. Afterwards, also when it was the first use of the library in the process, every operation works normally.",
  ["faults","inputs"],"every allocation of every operation refused, once or from there on; valid and malformed arguments",
  "The tests never run out of memory.",
  [RD,WR,CAL,FC],[("texts and messages",RD+": all readers; "+FC+": month::month(const char*)"),("formatting",WR+": _d2s_, _i2s_, strftime_*; "+CAL+": datetime::stringify"),("refused dates",FC+": cal2mjd")])
p("C26","Only the object operated on is ever written",
  "Inspecting, comparing, subtracting, converting and formatting dates, times and intervals, and reading texts and month names, write to nothing but their documented outputs, not even for a moment, print nothing, write no file and leave none open, and neither change nor temporarily replace any setting other threads share (locale, environment, signal handlers, time zone, directory, stream settings): operands and texts may be in read-only memory, and nothing before the first or after the terminating character of a text is touched. Results do not depend on where the operands are, nor on whether both operands are the same object.",
  ["inputs","configurations"],"all const operations and readers, all operands and texts, any placement in memory",
  "The tests keep their operands on the stack and their texts in writable or unchecked memory.",
  [CAL,FH,FC,RD,WR],[("readers",RD+": all readers; "+FC+": month::month(const char*)"),("const members and comparisons",CAL+", "+FH),("writers",WR)])
p("C27","Dates, intervals and amounts are values",
  "What a datetime, an interval or an amount of time shows (through every accessor, comparison, difference, conversion and writer) depends on what it denotes alone and not on how it came about: by any constructor, by copying, moving, assigning over a former value, swapping or sorting, by reading a text, or by any history of in-place additions and removals, with or without having been inspected on the way. Two that are equal are indistinguishable, and nothing done to one changes another.",
  ["histories","inputs"],"all histories of constructions, copies, assignments, in-place operations and inspections, over any number of objects",
  "The tests never look at more than one or two accessors of an object after changing it, and never copy, assign, swap or sort.",
  [CAL,FH],[("in-place operations",CAL+": add_seconds, remove_seconds, operator+="),("accessors",CAL+": as_ymd, as_ydoy, as_hmsf, as_mjd, sec_as_i, as_gps_wsow"),("copies",CAL+", "+FH+": implicit copy and move members")],
  state=[("m_mjd, m_sec","the whole state of a datetime",CAL)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P),"properties")
