#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the statements is this table)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

YR = "every CE year 639-9999"
p("C01", "Year elements follow the Suriyayatra recurrences",
  "For every Common Era year from 639 to 9999, initialising a year yields exactly: BE = CE+543, CS = CE-638, horakhun = floor((292207*CS+373)/800)+1, kammacubala = 800-((292207*CS+373) mod 800), uccabala = (horakhun+2611) mod 3232, avoman = (11*horakhun+650) mod 692, and with m = floor((11*horakhun+650)/692)+horakhun, masaken = floor(m/30) and tithi = m mod 30. "
  "The result depends on the year alone, not on what the year value held before.",
  YR, "The tests compare 2 years (1963, 1496) out of 9361; the property is about all of them and about reused values.",
  ["suriya_year.go", "suriya.go"], [("year initialisation", "suriya_year.go SuriyaYear.Init"), ("era constants", "suriya.go")],
  state=[("SuriyaYear", "elements of the astronomical New Year", "suriya_year.go")])
p("C02", "Year elements stay in range and agree with the solar leap rule",
  "For every CE year 639 to 9999 kammacubala is within 1..800, uccabala within 0..3231, avoman within 0..691 and tithi within 0..29, and the horakhun of the following year is 365 or 366 days later. "
  "A year is reported as a solar leap year exactly when the following New Year is 366 days later, which is when kammacubala is 207 or less.",
  YR, "No test looks at ranges, at two successive years together, or at the leap predicate.",
  ["suriya_year.go"], [("modulus arithmetic", "suriya_year.go SuriyaYear.Init"), ("leap threshold", "suriya_year.go Is_Suriya_Leap")])
p("C03", "Which years have a leap month (adhikamasa)",
  "A year is adhikamasa exactly when its own tithi is 24..29 or 0..5 and the tithi of the following year is not. In consequence no two consecutive years are ever adhikamasa.",
  YR, "The tests list 69 years (1950-2018); the rule must hold for every year and both thresholds.",
  ["suriya_year.go"], [("candidate test", "suriya_year.go Would_Be_Adhikamasa"), ("look-ahead", "suriya_year.go Is_Adhikamasa")])
p("C04", "Which years have an extra day (adhikavara)",
  "With the exceptions switched off, a year is adhikavara exactly when it is not adhikamasa and either its own avoman qualifies (126 or less in a solar leap year, less than 137 otherwise), or the previous year was adhikamasa and qualified by the same avoman rule. "
  "The carried day comes only from the directly preceding adhikamasa year.",
  YR, "The tests list 24 years; thresholds, the carry-over and its interplay with leap months are not sampled at their boundaries.",
  ["suriya_year.go"], [("thresholds", "suriya_year.go Would_Be_Adhikavara"), ("carry", "suriya_year.go Has_Carried_Adhikavara"), ("decision", "suriya_year.go Is_Adhikavara")])
p("C05", "Official exceptions change only the listed years, only when switched on",
  "While the exceptions switch is off (its default) the exception table has no influence on any result. While it is on, 1994 is not adhikavara and 1997 is, and every other year gets exactly the result it gets with the switch off.",
  "every year, both positions of the switch", "No test ever switches the exceptions on.",
  ["suriya.go", "suriya_year.go"], [("switch and table", "suriya.go UseExceptions, AdhikavaraExceptions"), ("lookup", "suriya_year.go Is_Adhikavara")], over=("inputs", "configurations"))
p("C06", "Lunar year length: 354, 355 or 384 days, by exclusive kinds",
  "The reported length of a lunar year is 384 days for an adhikamasa year, 355 for an adhikavara year and 354 for every other year. With the exceptions off no year is both adhikamasa and adhikavara.",
  YR, "No test calls the year length.", ["suriya_year.go"], [("length", "suriya_year.go YearLength")])
p("C07", "Asalha Puja falls 236, 237 or 266 days after the previous Kattika moon",
  "For every year the Asalha Puja date is the date of the preceding year's Kattika full moon plus 266 days in an adhikamasa year, plus 237 days in an adhikavara year and plus 236 days in any other year, at midnight UTC.",
  "every year 700-5000, both positions of the exceptions switch", "The tests sample 1950-2025 with years left out; the formula must hold for every year.",
  ["suriya_year.go", "helpers.go"], [("date", "suriya_year.go AsalhaPuja"), ("Kattika", "helpers.go CalculatePreviousKattika")], over=("inputs", "configurations"))
p("C08", "Kattika full moons are chained by lunar year lengths in both directions",
  "The Kattika full moon before year 2016 is 2015-11-25 at midnight UTC, and for every year Y the Kattika full moon before year Y+1 is exactly the length of lunar year Y (354, 355 or 384 days) after the one before year Y. This holds whether the date is reached by stepping forward or backward, and the calculation always ends.",
  "every year 1-9999, forward and backward stepping", "Tests reach it only through some Asalha dates of 1950-2025; both directions and the far ends need every year.",
  ["helpers.go"], [("stepping", "helpers.go CalculatePreviousKattika")], over=("inputs", "configurations"))
p("C09", "Day elements continue the year elements day by day",
  "For every CE year 639..9999 and every day N (1..385) of its lunar year, with e = N - tithi of the year: the day's horakhun is the year's horakhun + e, its kammacubala is the year's kammacubala + 800*e, and its uccabala, avoman, masaken and tithi are the year formulas applied to the day's horakhun; BE = CE+543, CS = CE-638, year and day number are as given. "
  "On New Year's day (e = 0) all elements equal those of the year, and nothing depends on what the day value held before.",
  "every year 639-9999, every day 1-385", "Tests compare three year/day pairs and a few printed values.",
  ["suriya_day.go", "suriya_year.go"], [("day initialisation", "suriya_day.go SuriyaDay.Init")])
p("C10", "Sun, Moon and mansion positions follow the documented procedure",
  "For every year and day the mean Sun is 360*(800*e + year kammacubala)/292207 degrees taken to whole arcminutes (floored) minus 3 arcminutes; the true Sun adds floor(134*sin|mean Sun - 80|) arcminutes (using the mean Sun before it is brought within the circle, cut to 4 decimals); the mean Moon is true Sun + (avoman + floor(avoman/25))/60 + 12*tithi - 40 arcminutes; the true Moon subtracts 296*sin(mean Moon - mean uccabala) arcminutes, with mean uccabala = 90*(year uccabala+e)/808 degrees + 2 arcminutes, cut to 4 decimals. "
  "All are then brought within the circle, and the raek is true Moon / (13 degrees 20 arcminutes to 4 decimals) + 1.",
  "every year 639-9999, every day 1-385", "Tests compare the positions of five days with printed values of the papers.",
  ["suriya_day.go", "helpers.go"], [("procedure B, C", "suriya_day.go SuriyaDay.Init")])
p("C11", "Reported positions always lie within the circle",
  "Normalising any finite angle, negative ones included, gives an angle within 0..360 that differs from it by a whole number of turns, and leaves angles already in 0..360 unchanged. The mean and true Sun and the mean and true Moon reported for any day lie within 0..360 degrees, and the raek between 1 and 28.001.",
  "every finite angle; every year 639-9999, every day 1-385", "No test calls the normalisation; the sampled days are all after the solar New Year and away from 0 degrees.",
  ["helpers.go", "suriya_day.go"], [("normalisation", "helpers.go NormalizeDegree"), ("users", "suriya_day.go SuriyaDay.Init")])
p("C12", "Degree and rasi-angsa-lipda conversions are faithful inverses",
  "Converting any angle, negative ones included, gives a rasi equal to floor(angle/30), an angsa within 0..29 and a lipda within 0..59 with 30*rasi + angsa equal to the floor of the angle and lipda the floor of its fraction in arcminutes; the text form shows these three as rasi:angsa\u00b0lipda'. "
  "Converting (x, y, z) back gives (30*x + y) + z/60 degrees floored to 4 decimals, so that a round trip loses less than one arcminute plus 0.0001 degrees.",
  "every angle within +-1e6 degrees, every triple", "Tests convert a few positive angles as part of other checks.",
  ["helpers.go"], [("conversions", "helpers.go DegreeToRal, RalToDegree, DegreeToRalString")])
p("C13", "Horakhun day numbers map to calendar dates one to one",
  "Horakhun 484049 is 1963 July 5, and for every horakhun within 5,000,000 of it the date is exactly (horakhun - 484049) days away, always at 23:59:59 UTC. The conversion always ends and never overflows the duration type on the way.",
  "every horakhun in -4,500,000..5,400,000", "Tests convert 14 numbers within 1330 years; larger distances take more steps.",
  ["helpers.go", "suriya.go"], [("stepping", "helpers.go HorakhunToDate"), ("reference", "suriya.go horakhunRef")])
p("C14", "Cycle positions advance by one each year and wrap",
  "The position of a year in the 57 year cycle is ((year - 1984) mod 57) + 1 and in the 19 year cycle ((year - 1984) mod 19) + 1, with a non-negative modulus: 1984 is position 1 in both, every year advances by one and the last position is followed by 1. This holds before 1984 as well as after.",
  "every year 1-9999", "No test calls the cycle positions.", ["suriya_year.go"], [("positions", "suriya_year.go AdhikavaraCyclePos, AdhikamasaCyclePos")])
p("C15", "Years since the last adhikamasa or adhikavara",
  "The number of years since the last adhikamasa (adhikavara) year is the smallest d >= 1 such that the year d years before is adhikamasa (adhikavara); it looks back at most 7 years for adhikamasa and 13 for adhikavara and returns -1 when there is none. The year itself is never counted.",
  "every year 700-9999, both positions of the exceptions switch", "No test calls them; only the CSV program does.",
  ["suriya_year.go"], [("searches", "suriya_year.go DeltaAdhikamasa, DeltaAdhikavara")], over=("inputs", "configurations"))
VAL = "every valid moon: phase new or full, month 1-13, season 1-3, any date, any kind of year"
p("C16", "Uposatha moons alternate and step by their own day count",
  "The moon after a new moon is a full moon and after a full moon a new moon; it falls exactly its own uposatha day count (14 or 15 days) after the previous one, and it is a mahanikaya moon with draft status, no source and no comments. "
  "A full moon always counts 15 days and keeps the month, month length, season and lunar year of the previous moon; a new moon counts 14 days when its month has 29 days and 15 when it has 30.",
  VAL, "The moon generator is not compiled by the test build at all.",
  ["uposatha_moon.go"], [("successor", "uposatha_moon.go UposathaMoon.NextUposatha")], over=("inputs", "histories"))
p("C17", "Lunar months follow in order, with the second Asalha and the extra day",
  "A new moon starts the next month: 12 is followed by 1, 8 by the second Asalha (13) in an adhikamasa year and by 9 otherwise, 13 by 9, any other month by the next number. "
  "The odd numbered months (13 included) have 30 days and the even ones 29, except that month 8 has 30 days in an adhikavara year, and exactly that new moon is marked as carrying the adhikavara.",
  VAL + "; the kind of year is that of the calendar year of the previous moon's date", "The moon generator is not compiled by the test build at all.",
  ["uposatha_moon.go"], [("months", "uposatha_moon.go UposathaMoon.NextUposatha")], over=("inputs", "histories"))
p("C18", "Festival moons are marked on the right full moons",
  "Magha, Vesakha, Asalha and Pavarana are marked on the full moons of months 3, 6, 8 and 11, and in an adhikamasa year of months 4, 7, 13 (the second Asalha) and 11. No other moon carries a mark, and no new moon ever does.",
  VAL, "The moon generator is not compiled by the test build at all.",
  ["uposatha_moon.go"], [("event switch", "uposatha_moon.go UposathaMoon.NextUposatha")], over=("inputs", "histories"))
p("C19", "Seasons, their moon counts and the lunar year number",
  "A season has 8 moons, the hot season (months 5-8 and 13) of an adhikamasa year 10; each moon's number within the season is one more than the previous moon's until the total is reached, then 1. "
  "A new season takes the next season number, after month 12 it is season 1 and the lunar year number goes up by one; within a season both stay the same. Starting from a Kattika full moon (8 of 8 of the third season) the seasons therefore begin exactly at months 1, 5 and 9 for every sequence of years.",
  VAL + "; every sequence of lunar year kinds starting at a Kattika full moon", "The moon generator is not compiled by the test build at all.",
  ["uposatha_moon.go", "cal_day.go"], [("seasons", "uposatha_moon.go UposathaMoon.NextUposatha"), ("start state", "cal_day.go GenerateSolarYear")], over=("inputs", "histories"))
p("C20", "A generated year holds all its moons and half moons and nothing else",
  "Generating a solar year starts from the preceding Kattika full moon (mahanikaya, 8 of 8 of season 3, month 12 of 29 days, lunar year = its calendar year + 543) and follows the moons until one falls after the year. It returns every uposatha moon dated in that year, unchanged but with confirmed status, and for every uposatha moon the half moon 8 days later if that day is in the year: waxing after a new moon, waning after a full moon. "
  "No moon or half moon dated outside the year is returned, none twice.",
  "every year 700-5000", "The generator is not compiled by the test build at all.",
  ["cal_day.go"], [("generation loop", "cal_day.go GenerateSolarYear")], over=("inputs", "histories"))
p("C21", "Major events of a generated year",
  "Every festival moon dated in the generated year gives its major events with the moon's calendar: one M\u0101gha P\u016bj\u0101, Ves\u0101kha P\u016bj\u0101 or \u0100s\u0101\u1e37ha P\u016bj\u0101 on the day of the moon, for Asalha also 'First day of Vassa' one day later, and for Pavarana both 'Pav\u0101ra\u1e47\u0101 Day' and 'Last day of Vassa' on the day of the moon. Summary and description are the same text, and no other moon gives a major event.",
  "every year 700-5000, every moon of it", "The generator is not compiled by the test build at all.",
  ["cal_day.go"], [("event construction", "cal_day.go GenerateSolarYear")], over=("inputs", "histories"))
p("C22", "Generated moons agree with the year length and Asalha Puja functions",
  "Following the moons from one Kattika full moon to the next adds up to exactly the reported length of the lunar year, for each of the three kinds of year. The moon marked as Asalha falls exactly on the date the year reports as Asalha Puja, and each lunar year has exactly one Magha, Vesakha, Asalha and Pavarana moon.",
  "every lunar year of every kind whose months 3-12 lie in one calendar year (true for 700-5000)", "No test relates the generator to the year functions; the generator is not compiled by the test build.",
  ["uposatha_moon.go", "suriya_year.go", "helpers.go", "cal_day.go"], [("month lengths", "uposatha_moon.go NextUposatha"), ("day counts", "suriya_year.go YearLength, AsalhaPuja; helpers.go CalculatePreviousKattika")], over=("inputs", "histories"))
p("C23", "Calendar days cover exactly the requested range, in date order",
  "The calendar days of a date range contain every astronomical moon and every generated event of every year touched by the range whose date is neither before the start nor after the end (both ends included), and no other event. The days are returned sorted by ascending date.",
  "every pair of dates", "The function is not compiled by the test build at all.",
  ["cal_day.go"], [("filter, merge, sort", "cal_day.go GetCalDays")])
p("C24", "Merging puts each event on its own calendar day and loses none",
  "Each event is added to the existing day with the same calendar date (year, month and day, whatever the time of day, in the location that the days and events share), or else to a new day holding only that event which is then added to the list. No event is dropped or added to a different day, events already on a day stay, and no second day with the same calendar date is created.",
  "every list of days and events, in any order of insertion", "The function is not compiled by the test build at all.",
  ["cal_day.go"], [("search", "cal_day.go findCalDay"), ("merge", "cal_day.go mergeIntoCalDays")], over=("inputs", "histories"))
p("C25", "Every kind of event files itself in its own slot of the day",
  "Adding an event to a day sets the day's date to the event's date and stores the event, complete, in the slot of its own kind only: the single uposatha, half or astronomical moon (replacing an earlier one, so there is never more than one), or appended to the major events or notes. "
  "Reading a moon slot gives what was last stored there or an empty moon, the date accessor gives the event's date, and the text of a moon is empty exactly when it has no phase.",
  "every event value and every day content", "None of the event types is compiled by the test build.",
  ["cal_day.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "major_event.go", "event.go"],
  [("slots", "cal_day.go CalDay.Set*/Get*"), ("event interface", "calendar_event.go CalendarEvent")], over=("inputs", "histories"))
p("C26", "Half moons derived from calendar days",
  "Deriving half moons from a list of calendar days keeps every given day in place and appends, for every day with an uposatha moon of phase new or full, one day dated 8 days later holding just a half moon of that date: waxing after new, waning after full. Days without an uposatha, or with another phase, add nothing.",
  "every list of calendar days", "The function is not compiled by the test build at all.",
  ["cal_day.go"], [("derivation", "cal_day.go AddHalfMoonDays")])
p("C27", "iCalendar entries are whole-day entries of the event's own date",
  "The iCalendar entry of any event, whatever its kind, is an all-day entry that starts at the event's date and ends 24 hours later, carries the event's text as summary and the time zone of the event's date, the current time as stamp, and a freshly generated unique identifier.",
  "every event of every kind", "None of this is compiled by the test build.",
  ["calendar_event.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "major_event.go", "event.go"], [("conversion", "calendar_event.go icalEvent")])
p("C28", "The ical command emits every uposatha, half moon, major event and note",
  "The ical command converts each uposatha moon, half moon, major event and note of every calendar day in the requested range into one calendar entry of its own, and no astronomical moon. The encoded calendar, complete, goes to the output file if one is named and to standard output otherwise.",
  "every date range and day content", "The command has no test and is not compiled by the test build.",
  ["suriya/suriya.go"], [("command", "suriya/suriya.go actionIcal")])
p("C29", "The caldays command groups every day under its own year",
  "The caldays command writes one JSON object in which each calendar day of the requested range appears once, in date order, in the list under its own calendar year. The complete JSON text goes to the output file if one is named and to standard output otherwise.",
  "every date range", "The command has no test and is not compiled by the test build.",
  ["suriya/suriya.go"], [("command", "suriya/suriya.go actionCalDays")])
p("C30", "Command line: dates are honoured and failures end with an error status",
  "Both commands use the given from and to dates (YYYY-MM-DD), defaulting to January 1st and December 31st of the current year in UTC. An invalid date, and any failure to encode the JSON, open the output file or write it, ends the program with a non-zero status instead of reporting success; an existing output file is replaced, not appended to or partly overwritten.",
  "every combination of flags, every failure of the calls involved", "The commands have no tests and are not compiled by the test build.",
  ["suriya/suriya.go"], [("flags", "suriya/suriya.go cliInit"), ("output", "suriya/suriya.go actionCalDays, actionIcal")], over=("inputs", "configurations", "fault_sequences"))
p("C31", "Astronomical moons: every moon of the range, in UTC, with its phase name",
  "The astronomical moons of a date range are exactly the moons of the data files of every year from the first to the last year of the range whose UTC time is neither before the start nor after the end, in file order, each with its time in UTC and the phase name new, waxing, full or waning for code 0, 1, 2 or 3. "
  "A year without a data file, or whose data file reports failure or an error, contributes nothing and does not affect the other years.",
  "every pair of dates, every embedded year", "The function is not compiled by the test build at all.",
  ["astro_moon.go", "aeris_moon.go"], [("reader", "astro_moon.go GetAstroMoons"), ("phase names", "aeris_moon.go phaseCodes")], over=("inputs", "fault_sequences"))
p("C32", "The embedded moon data is intact and identical to the data files",
  "For every data file there is one embedded copy under its path, and nothing else is embedded; each decompresses to exactly the recorded size and to the bytes of the data file. "
  "Every one decodes as a response whose moons are in strictly ascending order, belong to the year of the file in UTC, agree between numeric and textual time, have a phase code 0..3 matching their phase name, and follow each other in phase order within the file.",
  "all 141 files and every moon in them", "No test reads the embedded data.",
  ["data.go", "data/astro"], [("embedded table", "data.go _escData"), ("record type", "aeris_moon.go AerisResp")])
p("C33", "Embedded files are served whole, and missing ones are reported",
  "Reading an embedded file by its (cleaned) name returns its complete decompressed content without error, as bytes or as string, and a name that is not embedded yields a not-exist error, or a panic in the must variants, never empty content with success. A decoding failure is likewise returned as an error by the call that decodes the file, and the embedded table is never modified.",
  "every name, every call sequence", "No test reads embedded files.",
  ["data.go"], [("static file system", "data.go _escStaticFS.prepare, FSByte, FSString, FSMustByte, FSMustString")], over=("inputs", "histories"))
p("C34", "Name and code tables are consistent",
  "Month, season, calendar and status names map to their fixed codes (months magasira..kattika 1..12 with 2nd asalha 13, null 0; hemanta, gimhana, vassana 1..3, null 0; mahanikaya, dhammayut, srilanka, myanmar 0..3; draft, predicted, confirmed 0..2), and season numbers 1..3 map to Hemanta, Gimha and Vass\u0101na. Unknown names map to 0 and unknown season numbers to the empty string.",
  "every name and number", "No test looks a name up.", ["helpers.go"], [("tables", "helpers.go monthToInt, seasonToInt, seasonName, calendarToInt, statusToInt")])
p("C35", "Results depend only on arguments; no hidden shared state",
  "The calendar functions of the package read no clock, environment, random source, local time zone or file and depend on no package variable other than the exceptions switch and table, fixed tables and the embedded data; only the creation stamp and identifier of iCalendar entries may differ between calls. No function of the package modifies package level state after initialisation except the once-only decompression of an embedded file, so concurrent and repeated calls give the same results.",
  "every call, schedule and call history", "Single-threaded tests with one call each cannot see hidden state, races or local-zone dependence.",
  ["suriya_year.go", "suriya_day.go", "helpers.go", "cal_day.go", "uposatha_moon.go", "astro_moon.go", "calendar_event.go", "data.go"],
  [("no package state", "all package files")], over=("schedules", "histories", "configurations"))
p("C36", "Text forms show the values they name",
  "The text listing of a year's values has the lines CE, BE, CS, Horakhun, Kammacubala, Uccabala, Avoman, Masaken and Tithi in this order, each with the decimal value of that element, and a year's own text is its CE number. The text of an uposatha moon is '<Phase> Moon - <n> day <Season> <number>/<total>' and of a half or astronomical moon '<Phase> Moon', with the phase capitalised; a moon without a phase has an empty text. The text of a major event or note is its summary, and that of a calendar day the texts of its uposatha, astronomical and half moon, in this order and separated by ', '.",
  "every value", "Tests print fields themselves and never call these text forms.",
  ["suriya_year.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "major_event.go", "event.go", "cal_day.go"], [("String methods", "each type's file")])
p("C37", "The years CSV lists each year once with matching columns",
  "The years table has one row per year from the first to the last year inclusive, in order, after one header line, and every row has exactly as many columns as the header: the year, its BE number, its elements, cycle positions, the years since the last adhikamasa (adhikavara) only in years that are adhikamasa (adhikavara), and the calculated Asalha Puja date, each under its own heading. "
  "The program writes the table for 1970-2041 to years.csv with the exceptions off and the test column says OK exactly when the calculated Asalha date equals the listed one, FAIL when a listed one differs, and nothing when none is listed.",
  "every range of years", "The program has no tests and is not compiled by the test build.",
  ["utils/years-csv.go"], [("tables", "utils/years-csv.go yearsCsv, yearsCsvSimple")])
p("C38", "Moons match the astronomical phases",
  "For every year 1950-2040 each generated full and new moon uposatha falls within two days of the astronomical full or new moon of the embedded data.",
  "every moon 1950-2033", "No test compares the two.", ["cal_day.go", "data.go"], [("calendar formulas", "suriya_year.go")])
p("C39", "Leap months come at intervals of two or three years, seven in nineteen",
  "Within the era successive adhikamasa years are two or three years apart, and successive adhikavara years at most thirteen years apart.",
  "every pair of successive leap years 700-5000", "Tests list 1950-2018 only.", ["suriya_year.go"], [("decision", "suriya_year.go Is_Adhikamasa, Is_Adhikavara")])
p("C40", "Lunar year and civil year stay aligned",
  "For every year 700-5000 the moons of months 3 to 12 of a lunar year fall in one calendar year, so that each calendar year has exactly one of each festival.",
  "every year 700-5000", "Tests sample Asalha dates of 1950-2025.", ["helpers.go", "cal_day.go"], [("epoch and stepping", "helpers.go CalculatePreviousKattika")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
