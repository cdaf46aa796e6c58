U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; E='calendar_event.go'; G='data.go'; S='suriya.go'
HDR = '''
import (
	"testing"
	"time"
)

func dt(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }

func ini(y int) SuriyaYear {
	var s SuriyaYear
	s.Init(y)
	return s
}

// chain calls f for the moons from the Kattika full moon before year y on.
func chain(y, n int, f func(last, m UposathaMoon)) {
	d := CalculatePreviousKattika(y)
	m := UposathaMoon{Date: d, Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: d.Year() + 543}
	for i := 0; i < n; i++ {
		next := m.NextUposatha()
		f(m, next)
		m = next
	}
}

'''
def T(body, imports=''):
    h = HDR
    if imports: h = h.replace('import (\n', 'import (\n' + ''.join('\t"%s"\n' % i for i in imports.split()))
    return h + 'func TestDemo(t *testing.T) {\n' + body.strip('\n') + '\n}\n'
SEEDS = [
 dict(id='c10-avoman-step', prop='C10', edits=[(SD, 'math.Floor(float64(suDay.Avoman)/25)', 'math.Floor(float64(suDay.Avoman)/24.96)')],
  needs='a day whose avoman is 624, 649 or 674', what='the mean Moon is an arcminute too far on',
  demo=T('''
	for y := 1900; y < 2000; y++ {
		for n := 1; n < 350; n++ {
			var d SuriyaDay
			d.Init(y, n)
			want := d.TrueSun + (float64(d.Avoman)+math.Floor(float64(d.Avoman)/25))/60 + 12*float64(d.Tithi) - 0.6666
			for want > 360 {
				want -= 360
			}
			for want < 0 {
				want += 360
			}
			if e := math.Abs(d.MeanMoon - want); e > 0.001 && e < 359 {
				t.Fatalf("demo: mean Moon of %d day %d: %v, want %v", y, n, d.MeanMoon, want)
			}
		}
	}''', 'math')),
 dict(id='c10-years-kept', prop='C10', edits=[(SD, 'func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {', 'var yearOfDay [400]SuriyaYear\n\nfunc (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {'),
   (SD, '\tsuYear := SuriyaYear{}\n\tsuYear.Init(ce_year)', '\tsuYear := &yearOfDay[ce_year%400]\n\tif suYear.Year == 0 {\n\t\tsuYear.Init(ce_year)\n\t}')],
  needs='two days of years 400 years apart, one after the other', what='the second day is calculated from the elements of the other year',
  demo=T('''
	var a, b, c SuriyaDay
	a.Init(1601, 103)
	b.Init(2001, 103)
	y := ini(2001)
	c.Init(2001, y.Tithi)
	if c.Horakhun != y.Horakhun || b.Horakhun != y.Horakhun+103-y.Tithi {
		t.Fatalf("demo: %+v and %+v", b, c)
	}''')),
 dict(id='c16-even-month-14', prop='C16', edits=[(U, 'if nu.M_Days == 29 {', 'if nu.LunarMonth%2 == 0 {')],
  needs='the month of Asalha of an adhikavara year', what='the new moon of a 30 day month counts 14 days',
  demo=T('''
	for y := 1980; y < 2040; y++ {
		chain(y, 26, func(l, m UposathaMoon) {
			want := 15
			if m.Phase == "new" {
				want = m.M_Days - 15
			}
			if m.U_Days != want || !m.Date.Equal(l.Date.AddDate(0, 0, want)) {
				t.Fatalf("demo: %+v after %+v", m, l)
			}
		})
	}''')),
 dict(id='c16-copied-moon', prop='C16', edits=[(U, '\tvar nu UposathaMoon // next uposatha\n', '\tnu := lu // next uposatha\n'), (U, '\tif nu.Phase == "full" {\n\n', '\tnu.Event, nu.HasAdhikavara = "", false\n\n\tif nu.Phase == "full" {\n\n')],
  needs='a moon that carries a source or a comment', what='the source and the comments are copied to the moons after it',
  demo=T('''
	chain(2016, 30, func(l, m UposathaMoon) {
		l.Source, l.Comments = "almanac", "checked"
		if n := l.NextUposatha(); n != m {
			t.Fatalf("demo: %+v, want %+v", n, m)
		}
	})''')),
 dict(id='c17-carried-day-lost', prop='C17', edits=[(U, 'is_adhikavara_year := su_year.Is_Adhikavara()', 'is_adhikavara_year := su_year.Would_Be_Adhikavara() && !is_adhikamasa_year')],
  needs='a year that is adhikavara by the day carried from an adhikamasa year', what='the month of Asalha has 29 days in such a year',
  demo=T('''
	for y := 1700; y < 2040; y++ {
		s := ini(y)
		chain(y, 20, func(l, m UposathaMoon) {
			if m.LunarMonth == 8 && m.Phase == "new" && (m.M_Days == 30) != s.Is_Adhikavara() {
				t.Fatalf("demo: %d: %+v", y, m)
			}
		})
	}''')),
 dict(id='c17-months-run-on', prop='C17', edits=[(U, 'if lu.LunarMonth == 13 {', 'if lu.LunarMonth == 13 && is_adhikamasa_year {')],
  needs='a second Asalha moon dated in a year which the formulas do not call adhikamasa', what='month 14 follows',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		m := UposathaMoon{Date: dt(y, 8, 15), Phase: "full", S_Number: 5, S_Total: 8, U_Days: 15, M_Days: 30, LunarMonth: 13, LunarSeason: 2, LunarYear: y + 543}
		if n := m.NextUposatha(); n.LunarMonth != 9 {
			t.Fatalf("demo: %+v", n)
		}
	}''')),
 dict(id='c18-two-asalhas', prop='C18', edits=[(U, '\t\t\tcase 13:\n\t\t\t\tnu.Event = "asalha"', '\t\t\tcase 8, 13:\n\t\t\t\tnu.Event = "asalha"')],
  needs='an adhikamasa year', what='both Asalha full moons are marked',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		n := 0
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(UposathaMoon); ok && m.Event == "asalha" {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("demo: %d: %d moons of Asalha", y, n)
		}
	}''')),
 dict(id='c18-shift-by-season', prop='C18', edits=[(U, '\t\tif is_adhikamasa_year {\n\t\t\tswitch', '\t\tif nu.S_Total == 10 {\n\t\t\tswitch')],
  needs='Magha of an adhikamasa year: the season before the long one', what='Magha is marked on the full moon of month 3',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		s := ini(y)
		want := 3
		if s.Is_Adhikamasa() {
			want = 4
		}
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(UposathaMoon); ok && m.Event == "magha" && m.LunarMonth != want {
				t.Fatalf("demo: %d: %+v", y, m)
			}
		}
	}''')),
 dict(id='c19-total-of-next', prop='C19', edits=[(U, 'if lu.S_Number < lu.S_Total {', 'if lu.S_Number < nu.S_Total {')],
  needs='the change from the cold to the hot season of an adhikamasa year', what='the hot season starts two moons late, with number 9 of 10',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		chain(y, 24, func(l, m UposathaMoon) {
			if m.Phase == "new" && (m.LunarMonth == 1 || m.LunarMonth == 5 || m.LunarMonth == 9) != (m.S_Number == 1) {
				t.Fatalf("demo: %d: %+v", y, m)
			}
		})
	}''')),
 dict(id='c19-long-rains', prop='C19', edits=[(U, '((nu.LunarMonth >= 5 && nu.LunarMonth <= 8) || nu.LunarMonth == 13)', 'nu.LunarMonth >= 5 && nu.LunarMonth <= 13')],
  needs='the rains of an adhikamasa year', what='the rains have 10 moons instead of 8, and the seasons after them are shifted',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		chain(y, 40, func(l, m UposathaMoon) {
			if m.LunarSeason == 3 && m.S_Total != 8 || m.LunarMonth < 5 && m.LunarSeason != 1 {
				t.Fatalf("demo: %d: %+v", y, m)
			}
		})
	}''')),
 dict(id='c20-half-moon-over-new-year', prop='C20', edits=[(D, 'if halfmoon.GetDate().Year() == solar_year {', 'if uposatha.Date.Year() == solar_year && halfmoon.GetDate().Year() == solar_year {')],
  needs='an uposatha in the last week of December', what='its half moon in January is in neither year',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		have := map[time.Time]bool{}
		for _, e := range append(GenerateSolarYear(y), GenerateSolarYear(y+1)...) {
			if _, ok := e.(HalfMoon); ok {
				have[e.GetDate()] = true
			}
		}
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(UposathaMoon); ok && !have[m.Date.AddDate(0, 0, 8)] {
				t.Fatalf("demo: no half moon after %+v", m)
			}
		}
	}''')),
 dict(id='c20-half-moon-after-14', prop='C20', edits=[(D, '\t\t\tDate:  uposatha.Date.AddDate(0, 0, 8),', '\t\t\tDate:  uposatha.Date.AddDate(0, 0, uposatha.U_Days-7),')],
  needs='a new moon of a 29 day month', what='the half moon falls 7 days after it instead of 8',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		half := map[time.Time]bool{}
		for _, e := range GenerateSolarYear(y) {
			if _, ok := e.(HalfMoon); ok {
				half[e.GetDate()] = true
			}
		}
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(UposathaMoon); ok && m.Date.AddDate(0, 0, 8).Year() == y && !half[m.Date.AddDate(0, 0, 8)] {
				t.Fatalf("demo: %d: no half moon 8 days after %v", y, m.Date)
			}
		}
	}''')),
 dict(id='c20-stop-in-december', prop='C20', edits=[(D, 'for last_uposatha.Date.Year() <= solar_year {', 'for last_uposatha.Date.Before(time.Date(solar_year, 12, 17, 0, 0, 0, 0, time.UTC)) {')],
  needs='a year with moons on December 17 and 31', what='the moon of December 31 is missing',
  demo=T('''
	for y := 1700; y < 2300; y++ {
		have := map[time.Time]bool{}
		for _, e := range GenerateSolarYear(y) {
			have[e.GetDate()] = true
		}
		chain(y, 30, func(l, m UposathaMoon) {
			if m.Date.Year() == y && !have[m.Date] {
				t.Fatalf("demo: the moon of %v is missing", m.Date)
			}
		})
	}''')),
 dict(id='c21-vassa-by-month-length', prop='C21', edits=[(D, 'Date:        uposatha.Date.AddDate(0, 0, 1),', 'Date:        uposatha.Date.AddDate(0, 0, uposatha.M_Days-28),')],
  needs='an adhikamasa or adhikavara year, whose Asalha has 30 days', what='the first day of Vassa falls two days after Asalha Puja',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		s := ini(y)
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(MajorEvent); ok && m.Summary == "First day of Vassa" && !m.Date.Equal(s.AsalhaPuja().AddDate(0, 0, 1)) {
				t.Fatalf("demo: %d: %+v", y, m)
			}
		}
	}''')),
 dict(id='c21-vesakha-in-june', prop='C21', edits=[(D, 'if uposatha.Event == "vesakha" {', 'if uposatha.Event == "vesakha" && uposatha.Date.Month() < time.June {')],
  needs='a year in which Vesakha falls in June', what='there is no Vesakha Puja in it',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		n := 0
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(MajorEvent); ok && m.Summary == "Vesākha Pūjā" {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("demo: %d: %d times Vesakha", y, n)
		}
	}''')),
 dict(id='c22-carried-year-short', prop='C22', edits=[(U, 'if is_adhikavara_year && nu.LunarMonth == 8 {', 'if is_adhikavara_year && nu.LunarMonth == 8 && !su_year.Has_Carried_Adhikavara() {')],
  needs='an adhikavara year by a carried day', what='the moons of the year take a day less than the length of the year',
  demo=T('''
	for y := 1900; y < 2040; y++ {
		s := ini(y)
		chain(y, 20, func(l, m UposathaMoon) {
			if m.Event == "asalha" && m.Phase == "full" && m.Date.Year() == y && !m.Date.Equal(s.AsalhaPuja()) {
				t.Fatalf("demo: %d: %v and %v", y, m.Date, s.AsalhaPuja())
			}
		})
	}''')),
 dict(id='c22-second-asalha-29', prop='C22', edits=[(U, 'if nu.LunarMonth%2 == 1 {\n\t\t\t\tnu.M_Days = 30', 'if nu.LunarMonth%2 == 1 && nu.LunarMonth < 13 {\n\t\t\t\tnu.M_Days = 30')],
  needs='an adhikamasa year', what='the added month has 29 days, a day less than the year length says',
  demo=T('''
	for y := 1990; y < 2040; y++ {
		s := ini(y)
		for _, e := range GenerateSolarYear(y) {
			if m, ok := e.(UposathaMoon); ok && m.Event == "asalha" && !m.Date.Equal(s.AsalhaPuja()) {
				t.Fatalf("demo: %d: %v and %v", y, m.Date, s.AsalhaPuja())
			}
		}
	}''')),
 dict(id='c23-order-in-year', prop='C23', edits=[(D, 'return s[j].Date.After(s[i].Date)', 'return s[j].Date.YearDay() > s[i].Date.YearDay()')],
  needs='a range of more than one year', what='the days are sorted by their day of the year only',
  demo=T('''
	days := GetCalDays(dt(2015, 1, 1), dt(2016, 12, 31))
	for i := 1; i < len(days); i++ {
		if days[i].Date.Before(days[i-1].Date) {
			t.Fatalf("demo: %v after %v", days[i].Date, days[i-1].Date)
		}
	}''')),
 dict(id='c23-last-day-out', prop='C23', edits=[(D, 'd.GetDate().After(toDate) {', '!d.GetDate().Before(toDate) {')],
  needs='a range that ends on the day of an event', what='the event of the last day is missing',
  demo=T('''
	days := GetCalDays(dt(2016, 7, 1), dt(2016, 7, 19))
	for _, d := range days {
		if len(d.UposathaMoon) != 0 && d.UposathaMoon[0].Date.Equal(dt(2016, 7, 19)) {
			return
		}
	}
	t.Fatalf("demo: Asalha Puja is missing: %v", days)''')),
 dict(id='c23-break-on-early', prop='C23', edits=[(D, '\t\t\t\tcontinue\n\t\t\t} else', '\t\t\t\tbreak\n\t\t\t} else')],
  needs='a range that does not start on the first of January', what='the events of the first year are lost',
  demo=T('''
	n := 0
	for _, d := range GetCalDays(dt(2016, 7, 1), dt(2016, 12, 31)) {
		n += len(d.UposathaMoon)
	}
	if n < 11 {
		t.Fatalf("demo: %d moons", n)
	}''')),
 dict(id='c24-day-of-year', prop='C24', edits=[(D, 'if day_day.Equal(date_day) {', 'if day_day.YearDay() == date_day.YearDay() {')],
  needs='days of more than one year', what='events are filed under the same day of another year',
  demo=T('''
	days := mergeIntoCalDays(nil, Event{Date: dt(2015, 3, 4), Summary: "a"})
	days = mergeIntoCalDays(days, Event{Date: dt(2016, 3, 3), Summary: "b"})
	days = mergeIntoCalDays(days, Event{Date: dt(2017, 3, 4), Summary: "c"})
	if len(days) != 3 {
		t.Fatalf("demo: %v", days)
	}''')),
 dict(id='c24-within-a-day', prop='C24', edits=[(D, 'if day_day.Equal(date_day) {', 'if day_day.Sub(date) < 24*time.Hour && date.Sub(day_day) < 24*time.Hour && day_day.Day() <= date_day.Day() {')],
  needs='the last day of a month and a moment of the next day less than 24 hours on: the days of the months decide', what='an event late on a day is filed under the day before',
  demo=T('''
	for y := 2000; y < 2004; y++ {
		for i := 0; i < 365; i++ {
			d := dt(y, 1, 1).AddDate(0, 0, i)
			for _, h := range []int{0, 5, 23} {
				for _, step := range []int{-1, 0, 1} {
					e := d.AddDate(0, 0, step).Add(time.Duration(h) * time.Hour)
					days := mergeIntoCalDays([]CalDay{{Date: d}}, Event{Date: e, Summary: "x"})
					if (len(days) == 1) != (step == 0) {
						t.Fatalf("demo: %v into the day of %v: %v", e, d, days)
					}
				}
			}
		}
	}''')),
 dict(id='c25-keep-higher-status', prop='C25', edits=[(D, '\t\tc.UposathaMoon[0] = m\n', '\t\tif c.UposathaMoon[0].Status <= m.Status {\n\t\t\tc.UposathaMoon[0] = m\n\t\t}\n')],
  needs='a second uposatha moon of a lower status for the same day', what='the later moon is dropped',
  demo=T('''
	var c CalDay
	UposathaMoon{Date: dt(2016, 1, 1), Phase: "new", Status: 2}.AddToDay(&c)
	m := UposathaMoon{Date: dt(2016, 1, 1), Phase: "full", Status: 1}
	m.AddToDay(&c)
	if c.GetUposathaMoon() != m {
		t.Fatalf("demo: %+v", c)
	}''')),
 dict(id='c25-date-of-first', prop='C25', edits=[('event.go', '\tday_p.Date = e.Date\n', '\tif len(day_p.Events) == 0 {\n\t\tday_p.Date = e.Date\n\t}\n')],
  needs='a second note on a day, at another time', what='the day keeps the date of the first note',
  demo=T('''
	var c CalDay
	Event{Date: dt(2016, 1, 1)}.AddToDay(&c)
	e := Event{Date: dt(2016, 1, 1).Add(time.Hour)}
	e.AddToDay(&c)
	if !c.Date.Equal(e.Date) {
		t.Fatalf("demo: %+v", c)
	}''')),
 dict(id='c26-stop-at-unknown', prop='C26', edits=[(D, '\t\t\t\t// just skip in case of an invalid phase\n\t\t\t\tcontinue', '\t\t\t\t// just skip in case of an invalid phase\n\t\t\t\treturn cal_days')],
  needs='a day whose uposatha has no valid phase', what='no half moon at all is added',
  demo=T('''
	days := []CalDay{{Date: dt(2016, 1, 1), UposathaMoon: UposathaMoonSliceSingle{{Phase: "new"}}}, {Date: dt(2016, 1, 3), UposathaMoon: UposathaMoonSliceSingle{{Phase: "?"}}}}
	if r := AddHalfMoonDays(days); len(r) != 3 || !r[2].Date.Equal(dt(2016, 1, 9)) {
		t.Fatalf("demo: %+v", r)
	}''')),
 dict(id='c26-skip-neighbours', prop='C26', edits=[(D, '\tfor _, day := range cal_days {\n\t\t// If', '\tfor i, day := range cal_days {\n\t\tif i > 0 && cal_days[i-1].Date.Equal(day.Date) {\n\t\t\tcontinue\n\t\t}\n\t\t// If')],
  needs='two days of the same date one after the other', what='the second one adds no half moon',
  demo=T('''
	days := []CalDay{{Date: dt(2016, 1, 1)}, {Date: dt(2016, 1, 1), UposathaMoon: UposathaMoonSliceSingle{{Phase: "full"}}}}
	if r := AddHalfMoonDays(days); len(r) != 3 {
		t.Fatalf("demo: %+v", r)
	}''')),
 dict(id='c27-next-midnight', prop='C27', edits=[(E, 'd.GetDate().Add(24 * time.Hour)', 'd.GetDate().AddDate(0, 0, 1)')],
  needs='a date in a zone whose clock changes on that day', what='the entry ends 23 or 25 hours later',
  demo=T('''
	l, err := time.LoadLocation("Europe/London")
	if err != nil {
		t.Skip(err)
	}
	for i := 0; i < 366; i++ {
		e := Event{Date: time.Date(2016, 1, 1+i, 0, 0, 0, 0, l)}.IcalEvent()
		if e.DTEND.Sub(e.DTSTART) != 24*time.Hour {
			t.Fatalf("demo: %v to %v", e.DTSTART, e.DTEND)
		}
	}''', '') .replace('"testing"', '"testing"\n\t_ "time/tzdata"')),
 dict(id='c27-zone-utc', prop='C27', edits=[(E, '\t\tTZID:    d.GetDate().Location().String(),', '\t\tTZID:    time.UTC.String(),')],
  needs='an event in another zone than UTC', what='the entry names the wrong zone',
  demo=T('''
	l := time.FixedZone("ICT", 7*3600)
	if e := (HalfMoon{Date: dt(2016, 1, 1).In(l)}).IcalEvent(); e.TZID != "ICT" {
		t.Fatalf("demo: %+v", e)
	}''')),
]
