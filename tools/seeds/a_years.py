ELEMENTS = '''
import "testing"

func TestDemo(t *testing.T) {
	for y := 639; y <= 9999; y++ {
		for _, old := range []SuriyaYear{{}, {Year: 7, Horakhun: 5, Kammacubala: 900, Tithi: 29, Masaken: 3, Avoman: 11, Uccabala: 4}} {
			s := old
			s.Init(y)
			cs := y - 638
			h := (292207*cs+373)/800 + 1
			m := (11*h+650)/692 + h
			if s.Year != y || s.BE_Year != y+543 || s.CS_Year != cs || s.Horakhun != h || s.Kammacubala != 800-(292207*cs+373)%800 ||
				s.Uccabala != (h+2611)%3232 || s.Avoman != (11*h+650)%692 || s.Masaken != m/30 || s.Tithi != m%30 {
				t.Fatalf("demo: elements of %d: %+v", y, s)
			}
		}
	}
}
'''
QUAL = '''
func tq(t int) bool { return t >= 24 && t <= 29 || t >= 0 && t <= 5 }

func el(y int) SuriyaYear {
	cs := y - 638
	h := (292207*cs+373)/800 + 1
	m := (11*h+650)/692 + h
	return SuriyaYear{Year: y, Horakhun: h, Kammacubala: 800 - (292207*cs+373)%800, Avoman: (11*h + 650) % 692, Tithi: m % 30}
}

func am(y int) bool { return tq(el(y).Tithi) && !tq(el(y+1).Tithi) }

func aq(y int) bool {
	e := el(y)
	if e.Kammacubala <= 207 {
		return e.Avoman <= 126
	}
	return e.Avoman < 137
}

func av(y int) bool { return !am(y) && (aq(y) || am(y-1) && aq(y-1)) }

func ini(y int) SuriyaYear {
	s := SuriyaYear{}
	s.Init(y)
	return s
}
'''
SEEDS = [
 dict(id='c01-masaken-after-2100', prop='C01', edits=[('suriya_year.go', 'su.Masaken = int(math.Floor(float64((b + EraMasaken + su.Horakhun) / MonthLength)))', 'su.Masaken = int(math.Floor(float64((b+EraMasaken+su.Horakhun)/MonthLength) + float64(su.Horakhun/540000)))')],
  needs='years far from the ones the tests use (horakhun 540000, CE 2117 on)', what='the number of elapsed months is one too many in later years', demo=ELEMENTS),
 dict(id='c01-kammacubala-zero', prop='C01', edits=[('suriya_year.go', 'su.Kammacubala = KammacubalaDaily - a%KammacubalaDaily', 'su.Kammacubala = (KammacubalaDaily - a%KammacubalaDaily) % KammacubalaDaily')],
  needs='a year whose New Year falls exactly on a day boundary (once in 800 years)', what='kammacubala is 0 instead of 800 in such a year', demo=ELEMENTS),
 dict(id='c01-stale-uccabala', prop='C01', edits=[('suriya_year.go', 'su.Uccabala = (su.Horakhun + EraUccabala) % 3232', 'if u := (su.Horakhun + EraUccabala) % 3232; u != 0 {\n\t\tsu.Uccabala = u\n\t}')],
  needs='a year value that is initialised again for a year whose uccabala is 0', what='the uccabala of the earlier year is kept', demo=ELEMENTS.replace('y <= 9999', 'y <= 99999')),
 dict(id='c02-leap-boundary', prop='C02', edits=[('suriya_year.go', 'return su.Kammacubala <= 207', 'return su.Kammacubala <= 207 && su.Kammacubala != 1')],
  needs='a year with kammacubala 1', what='a solar leap year is reported as a common year',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 639; y < 9999; y++ {
		var a, b SuriyaYear
		a.Init(y)
		b.Init(y + 1)
		if a.Is_Suriya_Leap() != (b.Horakhun-a.Horakhun == 366) {
			t.Fatalf("demo: %d: kammacubala %d leap %v", y, a.Kammacubala, a.Is_Suriya_Leap())
		}
	}
}
'''),
 dict(id='c03-next-year-boundary', prop='C03', edits=[('suriya_year.go', 'return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()', 'if su_next.Tithi == 6 {\n\t\treturn su.Would_Be_Adhikamasa() && su_next.Avoman < 690\n\t}\n\treturn !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()')],
  needs='a year followed by one with tithi 6 and avoman 690 or more', what='an adhikamasa year is missed',
  demo='import "testing"\n' + QUAL + '''
func TestDemo(t *testing.T) {
	for y := 639; y < 9998; y++ {
		if ini(y).Is_Adhikamasa() != am(y) {
			t.Fatalf("demo: %d adhikamasa %v", y, ini(y).Is_Adhikamasa())
		}
	}
}
'''),
 dict(id='c03-tithi-25', prop='C03', edits=[('suriya_year.go', 'return (t >= 24 && t <= 29) || (t >= 0 && t <= 5)', 'if su.Year > 2040 {\n\t\treturn (t > 24 && t <= 29) || (t >= 0 && t <= 5)\n\t}\n\treturn (t >= 24 && t <= 29) || (t >= 0 && t <= 5)')],
  needs='a year after 2040 with tithi 24', what='the tithi range of the leap month rule is narrowed in later cycles',
  demo='import "testing"\n' + QUAL + '''
func TestDemo(t *testing.T) {
	for y := 639; y < 9998; y++ {
		if ini(y).Is_Adhikamasa() != am(y) {
			t.Fatalf("demo: %d adhikamasa %v", y, ini(y).Is_Adhikamasa())
		}
	}
}
'''),
 dict(id='c04-carry-two-years', prop='C04', edits=[('suriya_year.go', 'return last_year.Is_Adhikamasa() && last_year.Would_Be_Adhikavara()', 'if last_year.Would_Be_Adhikavara() && !last_year.Is_Adhikamasa() && last_year.Tithi > 5 {\n\t\treturn last_year.Has_Carried_Adhikavara()\n\t}\n\treturn last_year.Is_Adhikamasa() && last_year.Would_Be_Adhikavara()')],
  needs='two successive qualifying years, the first of which is two after an adhikamasa year', what='the extra day is carried over a year that is not adhikamasa',
  demo='import "testing"\n' + QUAL + '''
func TestDemo(t *testing.T) {
	for y := 639; y < 9998; y++ {
		if ini(y).Is_Adhikavara() != av(y) || ini(y).Has_Carried_Adhikavara() != (am(y-1) && aq(y-1)) {
			t.Fatalf("demo: %d adhikavara %v", y, ini(y).Is_Adhikavara())
		}
	}
}
'''),
 dict(id='c04-avoman-137', prop='C04', edits=[('suriya_year.go', 'return su.Avoman < 137', 'return su.Avoman < 137 || su.Avoman == 137 && su.Kammacubala > 400')],
  needs='a common year with avoman 137 and kammacubala above 400', what='a year gets an extra day it should not have',
  demo='import "testing"\n' + QUAL + '''
func TestDemo(t *testing.T) {
	for y := 639; y < 9998; y++ {
		if ini(y).Would_Be_Adhikavara() != aq(y) {
			t.Fatalf("demo: %d qualifies %v", y, ini(y).Would_Be_Adhikavara())
		}
	}
}
'''),
 dict(id='c05-exception-when-off', prop='C05', edits=[('suriya_year.go', '	if su.Is_Adhikamasa() {\n		return false\n	}\n	if su.Has', '	if len(AdhikavaraExceptions) > 2 && AdhikavaraExceptions[su.Year] {\n		return true\n	}\n	if su.Is_Adhikamasa() {\n		return false\n	}\n	if su.Has')],
  needs='an exception added to the table while the switch is off', what='the exception table takes effect although exceptions are off',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	AdhikavaraExceptions[2003] = true
	s := SuriyaYear{}
	s.Init(2003)
	if s.Is_Adhikavara() {
		t.Fatal("demo: exception used while switched off")
	}
}
'''),
 dict(id='c05-exceptions-shadow', prop='C05', edits=[('suriya_year.go', 'if _, ok := AdhikavaraExceptions[su.Year]; ok {', 'if _, ok := AdhikavaraExceptions[su.Year/2*2]; ok {')],
  needs='the switch on, and a year next to one of the listed years', what='years that are not listed are treated as exceptions',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1900; y < 2100; y++ {
		s := SuriyaYear{}
		s.Init(y)
		UseExceptions = false
		w := s.Is_Adhikavara()
		UseExceptions = true
		if y == 1994 || y == 1997 {
			w = y == 1997
		}
		if s.Is_Adhikavara() != w {
			t.Fatalf("demo: %d with exceptions: %v", y, s.Is_Adhikavara())
		}
	}
}
'''),
 dict(id='c06-length-would-be', prop='C06', edits=[('suriya_year.go', '''	days := 6 * (30 + 29)
	if su.Is_Adhikamasa() {
		// In an adhikamāsa year, there is an extra 30 day month.
		days = days + 30
	} else if su.Is_Adhikavara() {''', '''	days := 6 * (30 + 29)
	if su.Is_Adhikamasa() {
		// In an adhikamāsa year, there is an extra 30 day month.
		days = days + 30
	} else if !su.Has_Carried_Adhikavara() && su.Would_Be_Adhikavara() || UseExceptions && su.Is_Adhikavara() {''')],
  needs='a year with a carried adhikavara', what='the length of a year with a carried extra day is 354 instead of 355',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 700; y < 3000; y++ {
		s := SuriyaYear{}
		s.Init(y)
		w := 354
		if s.Is_Adhikamasa() {
			w = 384
		} else if s.Is_Adhikavara() {
			w = 355
		}
		if s.YearLength() != w {
			t.Fatalf("demo: length of %d is %d, want %d", y, s.YearLength(), w)
		}
	}
}
'''),
 dict(id='c07-asalha-carried', prop='C07', edits=[('suriya_year.go', '''	} else if su.Is_Adhikavara() {
		// In an adhikavāra year, the 8th month (Asalha) is 30 days instead of 29 days.''', '''	} else if su.Is_Adhikavara() && su.Year >= 1900 {
		// In an adhikavāra year, the 8th month (Asalha) is 30 days instead of 29 days.''')],
  needs='an adhikavara year before 1900', what='Asalha Puja is a day early in such a year',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1600; y < 2100; y++ {
		s := SuriyaYear{}
		s.Init(y)
		w := 236
		if s.Is_Adhikamasa() {
			w = 266
		} else if s.Is_Adhikavara() {
			w = 237
		}
		if g := s.AsalhaPuja().Sub(CalculatePreviousKattika(y)).Hours() / 24; g != float64(w) {
			t.Fatalf("demo: %d: Asalha Puja %v days after Kattika, want %d", y, g, w)
		}
	}
}
'''),
 dict(id='c08-backward-year', prop='C08', edits=[('helpers.go', '''		} else if su_year.Is_Adhikavara() {
			n += 1
		}
		kattika_date''', '''		} else if su_year.Is_Adhikavara() && (direction == 1 || y != 1705) {
			n += 1
		}
		kattika_date''')],
  needs='a year before 1705 (stepping backward over one particular year)', what='the Kattika moon before that year is a day off',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1500; y < 2200; y++ {
		s := SuriyaYear{}
		s.Init(y)
		if g := CalculatePreviousKattika(y + 1).Sub(CalculatePreviousKattika(y)).Hours() / 24; g != float64(s.YearLength()) {
			t.Fatalf("demo: %v days from the Kattika before %d to the next, year length %d", g, y, s.YearLength())
		}
	}
}
'''),
 dict(id='c08-wrong-year-forward', prop='C08', edits=[('helpers.go', '			su_year.Init(y + 1)\n', '			su_year.Init(y + 1 + (y-2015)/80)\n')],
  needs='a year more than 80 years after the epoch', what='stepping forward uses the length of the wrong year',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 2000; y < 2300; y++ {
		s := SuriyaYear{}
		s.Init(y)
		if g := CalculatePreviousKattika(y + 1).Sub(CalculatePreviousKattika(y)).Hours() / 24; g != float64(s.YearLength()) {
			t.Fatalf("demo: %v days from the Kattika before %d to the next, year length %d", g, y, s.YearLength())
		}
	}
}
'''),
 dict(id='c09-day-kammacubala', prop='C09', edits=[('suriya_day.go', 'suDay.Kammacubala = KammacubalaDaily - (suDay.CS_Year*EraDays+EraHorakhun)%EraYears + elapsedDays*KammacubalaDaily', 'suDay.Kammacubala = KammacubalaDaily - (suDay.CS_Year*EraDays+EraHorakhun)%EraYears + elapsedDays*KammacubalaDaily\n\tif suDay.Kammacubala < 0 {\n\t\tsuDay.Kammacubala += EraDays\n\t}')],
  needs='a day before the solar New Year of its year', what='kammacubala of such a day jumps by an era',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1900; y < 2050; y++ {
		s := SuriyaYear{}
		s.Init(y)
		for n := 1; n <= 385; n++ {
			d := SuriyaDay{}
			d.Init(y, n)
			if d.Kammacubala != s.Kammacubala+800*(n-s.Tithi) || d.Horakhun != s.Horakhun+n-s.Tithi {
				t.Fatalf("demo: day %d of %d: kammacubala %d", n, y, d.Kammacubala)
			}
		}
	}
}
'''),
 dict(id='c09-day-tithi', prop='C09', edits=[('suriya_day.go', 'suDay.Tithi = bi % MonthLength', 'suDay.Tithi = (bi + elapsedDays/364) % MonthLength')],
  needs='a day at least 364 days after New Year in an adhikamasa year', what='the lunar day of such a day is one too many',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1900; y < 2050; y++ {
		for n := 1; n <= 385; n++ {
			d := SuriyaDay{}
			d.Init(y, n)
			m := (11*d.Horakhun+650)/692 + d.Horakhun
			if d.Tithi != m%30 {
				t.Fatalf("demo: day %d of %d: tithi %d, want %d", n, y, d.Tithi, m%30)
			}
		}
	}
}
'''),
 dict(id='c11-moon-unbounded', prop='C11', edits=[('suriya_day.go', 'suDay.MeanMoon = NormalizeDegree(suDay.TrueSun + a + (float64(suDay.Tithi) * 12) - RalToDegree(0, 0, 40))', 'suDay.MeanMoon = NormalizeDegree(suDay.TrueSun+a+(float64(suDay.Tithi)*12)) - RalToDegree(0, 0, 40)')],
  needs='a day on which the mean Moon is within 40 arcminutes after the first point', what='the mean Moon is reported as a negative angle',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 1900; y < 2050; y++ {
		for n := 1; n <= 385; n++ {
			d := SuriyaDay{}
			d.Init(y, n)
			if d.MeanMoon < 0 || d.MeanMoon > 360 {
				t.Fatalf("demo: day %d of %d: mean Moon %v", n, y, d.MeanMoon)
			}
		}
	}
}
'''),
 dict(id='c12-lipda-round', prop='C12', edits=[('helpers.go', 'z = int(math.Floor((degree - math.Floor(degree)) * 60))', 'z = int(math.Floor((degree-math.Floor(degree))*60 + 1e-3))')],
  needs='an angle less than a thousandth of an arcminute below a whole degree', what='the lipda reaches 60',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for _, d := range []float64{10, 29.9999999, 0.5, 359.99999, 77.5083} {
		if _, _, z := DegreeToRal(d); z < 0 || z > 59 {
			t.Fatalf("demo: %v has %d lipda", d, z)
		}
	}
}
'''),
 dict(id='c12-back-rasi', prop='C12', edits=[('helpers.go', 'return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000', 'return math.Floor(float64(30*x+y)*10000+float64(z%60*10000)/60) / 10000')],
  needs='a lipda outside 0..59, as the day calculation passes', what='arcminutes beyond a degree are dropped',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	if g := RalToDegree(0, 0, 90); g != 1.5 {
		t.Fatalf("demo: 0; 0 : 90 is %v degrees", g)
	}
}
'''),
 dict(id='c13-step-days', prop='C13', edits=[('helpers.go', '''		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays''', '''		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays
		if delta == direction*stepDays {
			delta += direction
		}''')],
  needs='a horakhun an exact multiple of the 103240 day step away', what='the date is one day off',
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ref := time.Date(1963, 7, 5, 23, 59, 59, 0, time.UTC)
	for k := -900000; k <= 900000; k += 10 {
		if w := ref.AddDate(0, 0, k); !HorakhunToDate(int64(484049 + k)).Equal(w) {
			t.Fatalf("demo: horakhun %d is %v, want %v", 484049+k, HorakhunToDate(int64(484049+k)), w)
		}
	}
}
'''),
 dict(id='c15-adhikavara-reach', prop='C15', edits=[('suriya_year.go', 'if su.Year-check.Year > 12 {', 'if su.Year-check.Year >= 12 {')],
  needs='a year whose last adhikavara year is 13 years back', what='-1 is returned instead of 13',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	AdhikavaraExceptions = map[int]bool{}
	for y := 1001; y <= 1012; y++ {
		AdhikavaraExceptions[y] = false
	}
	AdhikavaraExceptions[1000] = true
	UseExceptions = true
	s := SuriyaYear{}
	s.Init(1013)
	if s.DeltaAdhikavara() != 13 {
		t.Fatalf("demo: %d", s.DeltaAdhikavara())
	}
}
'''),
 dict(id='c15-adhikamasa-self', prop='C15', edits=[('suriya_year.go', '''	for year := su.Year - 1; true; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikamasa() {''', '''	for year := su.Year - 1; true; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikamasa() && (su.Year-year != 2 || check.Avoman != 13) {''')],
  needs='an adhikamasa year with avoman 13 two years before', what='a leap year is skipped',
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for y := 700; y < 9000; y++ {
		s := SuriyaYear{}
		s.Init(y)
		w := -1
		for d := 7; d >= 1; d-- {
			p := SuriyaYear{}
			p.Init(y - d)
			if p.Is_Adhikamasa() {
				w = d
			}
		}
		if s.DeltaAdhikamasa() != w {
			t.Fatalf("demo: %d: %d, want %d", y, s.DeltaAdhikamasa(), w)
		}
	}
}
'''),
]
