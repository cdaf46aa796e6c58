import base64, gzip, json, re, sys, os
sys.path.insert(0, os.path.dirname(__file__))
import importlib.util
sp = importlib.util.spec_from_file_location('b_moons', os.path.join(os.path.dirname(__file__), 'b_moons.py'))
bm = importlib.util.module_from_spec(sp); sp.loader.exec_module(bm)
T = bm.T
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; A='astro_moon.go'; G='data.go'; AM='aeris_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'
def embedded(year):
    t = open('/repo/data.go').read()
    m = re.search(r'"/data/astro/astro-%d.json": \{.*?compressed: `\n(.*?)\n`' % year, t, re.S)
    return m.group(1), gzip.decompress(base64.b64decode(m.group(1).replace('\n', '')))
def restale(year, f):
    old, data = embedded(year)
    new = f(data)
    assert len(new) == len(data) and new != data
    z = base64.b64encode(gzip.compress(new, 9, mtime=0)).decode()
    lines = [z[i:i+76] for i in range(0, len(z), 76)]
    return (G, old, '\n'.join(lines))
def shift(data):
    js = json.loads(data)
    i = 20
    iso = js['response'][i]['dateTimeISO']
    new = iso[:11] + '%02d' % ((int(iso[11:13]) + 1) % 24) + iso[13:]
    return data.replace(iso.encode(), new.encode())
def shiftboth(data):
    js = json.loads(data)
    iso = js['response'][20]['dateTimeISO']; ts = js['response'][20]['timestamp']
    new = iso[:14] + '%02d' % ((int(iso[14:16]) + 1) % 60) + iso[16:]
    return data.replace(iso.encode(), new.encode()).replace(str(ts).encode(), str(ts + 60).encode())
EMB = '''
	files, err := filepath.Glob("data/astro/*.json")
	if err != nil || len(files) < 100 {
		t.Fatalf("demo: %d files, %d embedded", len(files), len(_escData))
	}
	for _, f := range files {
		want, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		got, err := FSByte(false, "/"+f)
		if err != nil || string(got) != string(want) || int64(len(want)) != _escData["/"+f].size {
			t.Fatalf("demo: %s differs: %v", f, err)
		}
	}'''
ADD = '''
	pack := func(s string) string {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write([]byte(s))
		w.Close()
		return base64.StdEncoding.EncodeToString(b.Bytes())
	}
	add := func(year int, s string) {
		_escData[fmt.Sprintf("/data/astro/astro-%d.json", year)] = &_escFile{size: int64(len(s)), compressed: pack(s)}
	}
	_ = add
'''
ADDI = 'bytes compress/gzip encoding/base64 fmt'
MAIN = '''
import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// suriya runs the program with the arguments in a new process.
func suriyaRun(env []string, args ...string) (string, int) {
	c := exec.Command(os.Args[0], "-test.run=TestDemo")
	c.Env = append(append(os.Environ(), "DEMO_ARGS="+strings.Join(args, "\\x01")), env...)
	out, _ := c.Output()
	return string(out), c.ProcessState.ExitCode()
}

var _ = filepath.Join

func TestDemo(t *testing.T) {
	if a, ok := os.LookupEnv("DEMO_ARGS"); ok {
		os.Args = append([]string{"suriya"}, strings.Split(a, "\\x01")...)
		main()
		os.Exit(0)
	}
	demo(t)
}

'''
def M(body, extra='', imports=''):
    h = MAIN
    if imports: h = h.replace('import (\n', 'import (\n' + ''.join('\t"%s"\n' % i for i in imports.split()))
    return h + extra + '\nfunc demo(t *testing.T) {\n' + body.strip('\n') + '\n}\n'
CSV = '''
import (
	"os"
	"strings"
	"testing"
	"time"

	"github.com/splendidmoons/suriya-go"
)

var _ = time.Now
var _ suriya.SuriyaYear
var _ = strings.Split
var _ = os.Args

func TestDemo(t *testing.T) {
%s
}
'''
SEEDS = [
 dict(id='c28-shared-entry', prop='C28', dir='suriya', edits=[(C, '\tfor _, day := range cal_days {\n\n\t\t// Upos', '\tvar e ical.VEvent\n\tfor _, day := range cal_days {\n\n\t\t// Upos'), (C, '\t\tif len(day.HalfMoon) != 0 {\n\t\t\te := day', '\t\tif len(day.HalfMoon) != 0 {\n\t\t\te = day')],
  needs='a range with two or more half moons', what='every half moon entry is the last half moon',
  demo=M('''
	out, code := suriyaRun(nil, "ical", "--from", "2016-01-01", "--to", "2016-03-31")
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\\r\\n") {
		if strings.HasPrefix(l, "UID:") {
			if seen[l] {
				t.Fatalf("demo: %s twice", l)
			}
			seen[l] = true
		}
	}
	if code != 0 || len(seen) < 10 {
		t.Fatalf("demo: %d %s", code, out)
	}''')),
 dict(id='c28-first-major-only', prop='C28', dir='suriya', edits=[(C, '\t\tfor _, d := range day.MajorEvents {\n\t\t\te := d.IcalEvent()', '\t\tif len(day.MajorEvents) != 0 {\n\t\t\te := day.MajorEvents[0].IcalEvent()')],
  needs='the day of Pavarana, which has two major events', what='the last day of Vassa is missing',
  demo=M('''
	out, _ := suriyaRun(nil, "ical", "--from", "2016-01-01", "--to", "2016-12-31")
	for _, s := range []string{"Pavāraṇā Day", "Last day of Vassa", "First day of Vassa", "Vesākha Pūjā"} {
		if strings.Count(out, "SUMMARY:"+s) != 1 {
			t.Fatalf("demo: %s in %s", s, out)
		}
	}''')),
 dict(id='c29-week-year', prop='C29', dir='suriya', edits=[(C, 'y := fmt.Sprintf("%d", day.Date.Year())', 'wy, _ := day.Date.ISOWeek()\n\t\ty := fmt.Sprintf("%d", wy)')],
  needs='a moon in the first or last days of a year', what='the day is listed under the neighbouring year',
  demo=M('''
	for _, y := range []string{"2011", "2012", "2013", "2014", "2015", "2016"} {
		out, _ := suriyaRun(nil, "caldays", "--from", y+"-01-01", "--to", y+"-12-31")
		var m map[string][]interface{}
		if err := json.Unmarshal([]byte(out), &m); err != nil || len(m) != 1 || m[y] == nil {
			t.Fatalf("demo: %s: %v %d years", y, err, len(m))
		}
	}''', imports='encoding/json')),
 dict(id='c29-four-digits', prop='C29', dir='suriya', edits=[(C, 'y := fmt.Sprintf("%d", day.Date.Year())', 'y := fmt.Sprintf("%04d", day.Date.Year())')],
  needs='a year before 1000', what='the days are listed under 0700 instead of 700',
  demo=M('''
	out, _ := suriyaRun(nil, "caldays", "--from", "0700-01-01", "--to", "0700-12-31")
	if !strings.HasPrefix(out, "{\\"700\\":") {
		t.Fatalf("demo: %.80s", out)
	}''')),
 dict(id='c30-status-256', prop='C30', dir='suriya', edits=[(C, 'fmt.Printf("%v", err)\n\t\t\tos.Exit(1)\n\t\t}\n\t} else {\n\t\tdates["toDate"]', 'fmt.Printf("%v", err)\n\t\t\tos.Exit(len(c.String("to")) << 8)\n\t\t}\n\t} else {\n\t\tdates["toDate"]')],
  needs='an invalid end date', what='the exit status is a multiple of 256, which the system reports as success',
  demo=M('''
	if out, code := suriyaRun(nil, "caldays", "--from", "2016-01-01", "--to", "2016-02-30"); code == 0 {
		t.Fatalf("demo: %s", out)
	}
	if out, code := suriyaRun(nil, "caldays", "--from", "x", "--to", "2016-02-20"); code == 0 {
		t.Fatalf("demo: %s", out)
	}''')),
 dict(id='c30-old-rest-stays', prop='C30', dir='suriya', edits=[(C, '\tbuf := bytes.NewBufferString("")\n\ticalendar.Encode(buf)\n\tstr := buf.String()\n\n\tif len(c.String("output")) > 0 {\n\t\tf, err := os.OpenFile(c.String("output"), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)', '\tbuf := bytes.NewBufferString("")\n\ticalendar.Encode(buf)\n\tstr := buf.String()\n\n\tif len(c.String("output")) > 0 {\n\t\tf, err := os.OpenFile(c.String("output"), os.O_CREATE|os.O_WRONLY, 0644)')],
  needs='an output file that exists and is longer', what='the rest of the old calendar stays behind the new one',
  demo=M('''
	f := filepath.Join(t.TempDir(), "o.ical")
	suriyaRun(nil, "ical", "--from", "2016-01-01", "--to", "2016-12-31", "--output", f)
	suriyaRun(nil, "ical", "--from", "2016-01-01", "--to", "2016-01-31", "--output", f)
	b, _ := os.ReadFile(f)
	if strings.Count(string(b), "END:VCALENDAR") != 1 {
		t.Fatalf("demo: %s", b)
	}''')),
 dict(id='c30-local-start', prop='C30', dir='suriya', edits=[(C, 'time.Parse("2006-01-02", c.String("from"))', 'time.ParseInLocation("2006-01-02", c.String("from"), time.Local)')],
  needs='a local zone west of Greenwich and a moon on the first day', what='the range starts hours late and the moon of the first day is missing',
  demo=M('''
	out, _ := suriyaRun([]string{"TZ=America/New_York"}, "ical", "--from", "2016-07-19", "--to", "2016-07-31")
	if !strings.Contains(out, "SUMMARY:Full Moon") {
		t.Fatalf("demo: %s", out)
	}''').replace('"testing"', '"testing"\n\t_ "time/tzdata"')),
 dict(id='c31-response-kept', prop='C31', edits=[(A, '\t\tvar resp AerisResp\n', ''), (A, '\tfor year := fromDate.Year()', '\tvar resp AerisResp\n\n\tfor year := fromDate.Year()')],
  needs='a year whose data file reports an error, followed by one that is all right', what='the error sticks, and the later years are left out',
  demo=T(ADD + '''
	add(3001, `{"success":true,"error":{"code":"warn","description":"x"},"response":[]}`)
	add(3002, `{"success":true,"error":null,"response":[{"timestamp":1,"dateTimeISO":"3002-01-02T00:00:00+00:00","code":2,"name":"full moon"}]}`)
	if m := GetAstroMoons(dt(3001, 1, 1), dt(3002, 12, 31)); len(m) != 1 || m[0].Phase != "full" {
		t.Fatalf("demo: %v", m)
	}''', ADDI)),
 dict(id='c31-whole-days', prop='C31', edits=[(A, 'if m.Date.Before(fromDate) || m.Date.After(toDate) {', 'if m.Date.Truncate(24*time.Hour).Before(fromDate) || m.Date.After(toDate) {')],
  needs='a range that starts in the middle of the day of a moon', what='the moon of that day is left out',
  demo=T('''
	all := GetAstroMoons(dt(2016, 1, 1), dt(2016, 12, 31))
	for i, m := range all {
		if got := GetAstroMoons(m.Date, dt(2016, 12, 31)); len(got) != len(all)-i {
			t.Fatalf("demo: from %v: %d moons, want %d", m.Date, len(got), len(all)-i)
		}
	}''')),
 dict(id='c31-repeated-phase', prop='C31', edits=[(A, '\t\t\tm.Phase = phaseCodes[aemoon.Code]\n', '\t\t\tm.Phase = phaseCodes[aemoon.Code]\n\t\t\tif n := len(moons); n > 0 && moons[n-1].Phase == m.Phase {\n\t\t\t\tcontinue\n\t\t\t}\n')],
  needs='two moons of the same phase next to each other, as where a year without data lies between', what='the later one is dropped',
  demo=T(ADD + '''
	add(3001, `{"success":true,"error":null,"response":[{"timestamp":1,"dateTimeISO":"3001-01-02T00:00:00+00:00","code":2,"name":"full moon"}]}`)
	add(3003, `{"success":true,"error":null,"response":[{"timestamp":1,"dateTimeISO":"3003-01-02T00:00:00+00:00","code":2,"name":"full moon"}]}`)
	if m := GetAstroMoons(dt(3001, 1, 1), dt(3003, 12, 31)); len(m) != 2 {
		t.Fatalf("demo: %v", m)
	}''', ADDI)),
 dict(id='c32-hour-off', prop='C32', edits=[restale(2027, shift)],
  needs='one moon of the embedded year 2027', what='its time is an hour off', demo=T(EMB, 'os path/filepath').replace('\t"time"', '\t"time"').replace('func dt', 'var _ = time.Now\n\nfunc dt')),
 dict(id='c32-stale-copy', prop='C32', edits=[restale(1988, shiftboth)],
  needs='one moon of the embedded year 1988', what='the embedded copy is older than the data file and differs by a minute', demo=T(EMB, 'os path/filepath')),
 dict(id='c33-last-part', prop='C33', edits=[(G, '\tf, present := _escData[path.Clean(name)]\n\tif !present {\n\t\treturn nil, os.ErrNotExist\n\t}\n\tvar err', '\tf, present := _escData["/data/astro/"+path.Base(name)]\n\tif !present {\n\t\treturn nil, os.ErrNotExist\n\t}\n\tvar err')],
  needs='a name in another folder', what='a file that is not embedded is served',
  demo=T('''
	if b, err := FSByte(false, "/other/astro-2016.json"); err == nil {
		t.Fatalf("demo: %d bytes", len(b))
	}
	if b, err := FSByte(false, "/data/astro/../astro/astro-2016.json"); err != nil || len(b) == 0 {
		t.Fatalf("demo: %v", err)
	}''')),
 dict(id='c33-error-lost', prop='C33', edits=[(G, '\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn f, nil\n}\n\nfunc (fs _escStaticFS)', '\tif err != nil && f.data == nil {\n\t\treturn nil, err\n\t}\n\treturn f, nil\n}\n\nfunc (fs _escStaticFS)')],
  needs='an entry whose compressed text is cut short', what='the first part of the file is served as if it were the whole',
  demo=T(ADD + '''
	s := pack(strings.Repeat("some text that is long enough 0123456789 ", 4000) + "end")
	_escData["/x"] = &_escFile{size: 99, compressed: s[:len(s)/2/4*4]}
	if b, err := FSByte(false, "/x"); err == nil {
		t.Fatalf("demo: %d bytes", len(b))
	}''', ADDI + ' strings')),
 dict(id='c33-limited', prop='C33', edits=[(G, 'f.data, err = ioutil.ReadAll(gr)', 'f.data, err = ioutil.ReadAll(io.LimitReader(gr, 4916))'), (G, '\t"io/ioutil"', '\t"io"\n\t"io/ioutil"')],
  needs='one of the longest files', what='the last bytes are cut off',
  demo=T(EMB, 'os path/filepath')),
 dict(id='c34-last-season', prop='C34', edits=[(H, 'return seasonName[number]', 'if number > len(seasonName)-1 {\n\t\tnumber = len(seasonName) - 1\n\t}\n\treturn seasonName[number]')],
  needs='a season number above 3', what='the name of the third season is returned',
  demo=T('''
	for n := -5; n < 20; n++ {
		want := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}[n]
		if SeasonName(n) != want {
			t.Fatalf("demo: season %d is %q", n, SeasonName(n))
		}
	}''')),
 dict(id='c34-unknown-remembered', prop='C34', edits=[(H, '\treturn monthToInt[month]', '\tn, ok := monthToInt[month]\n\tif !ok {\n\t\tmonthToInt[month] = len(monthToInt)\n\t}\n\treturn n')],
  needs='an unknown name asked for twice', what='the second time it has a month number',
  demo=T('''
	for i := 0; i < 3; i++ {
		if n := MonthToInt("Magha"); n != 0 {
			t.Fatalf("demo: Magha is %d", n)
		}
	}''')),
 dict(id='c34-memo-by-length', prop='C34', edits=[(H, '\treturn seasonToInt[season]', '\tif n, ok := seasonMemo[len(season)]; ok && n != 0 {\n\t\treturn n\n\t}\n\tseasonMemo[len(season)] = seasonToInt[season]\n\treturn seasonToInt[season]'), (H, 'func SeasonToInt(', 'var seasonMemo = map[int]int{}\n\nfunc SeasonToInt(')],
  needs='two names of the same length, one after the other', what='the second gets the code of the first',
  demo=T('''
	for _, n := range []string{"hemanta", "gimhana", "vassana", "hemanta"} {
		want := map[string]int{"hemanta": 1, "gimhana": 2, "vassana": 3}[n]
		if SeasonToInt(n) != want {
			t.Fatalf("demo: %s is %d", n, SeasonToInt(n))
		}
	}''')),
 dict(id='c35-shared-scratch', prop='C35', edits=[(H, 'func CalculatePreviousKattika(solar_year int) time.Time {\n', 'var stepYear SuriyaYear\n\nfunc CalculatePreviousKattika(solar_year int) time.Time {\n'), (H, '\t\tvar su_year SuriyaYear\n\t\tvar n int\n', '\t\tsu_year := &stepYear\n\t\tvar n int\n')],
  needs='two calls at the same time', what='the calls overwrite each other\'s year and the dates are off',
  demo=T('''
	want := map[int]time.Time{}
	for y := 700; y < 900; y++ {
		want[y] = CalculatePreviousKattika(y)
	}
	var wg sync.WaitGroup
	bad := make(chan int, 1000)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 5; r++ {
				for y := 700 + g; y < 900; y++ {
					if !CalculatePreviousKattika(y).Equal(want[y]) {
						select {
						case bad <- y:
						default:
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case y := <-bad:
		t.Fatalf("demo: %d differs", y)
	default:
	}''', 'sync')),
 dict(id='c35-environment', prop='C35', edits=[(A, '\t\tvar data []byte\n', '\t\tuseLocal := os.Getenv("SURIYA_LOCAL") != ""\n\t\tvar data []byte\n'), (A, '\t"log"\n', '\t"log"\n\t"os"\n')],
  needs='an environment variable', what='the moons come from the working directory instead of the embedded data',
  demo=T('''
	a := len(GetAstroMoons(dt(2016, 1, 1), dt(2016, 12, 31)))
	t.Setenv("SURIYA_LOCAL", "1")
	t.Chdir(t.TempDir())
	if b := len(GetAstroMoons(dt(2016, 1, 1), dt(2016, 12, 31))); a != b {
		t.Fatalf("demo: %d and %d moons", a, b)
	}''')),
 dict(id='c36-season-of-month', prop='C36', edits=[(U, 'SeasonName(m.LunarSeason)', 'SeasonName((m.LunarMonth-1)/4+1)')],
  needs='the second Asalha, month 13', what='the season is missing in its text',
  demo=T('''
	chain(2015, 30, func(l, m UposathaMoon) {
		want := "New"
		if m.Phase == "full" {
			want = "Full"
		}
		want += fmt.Sprintf(" Moon - %d day %s %d/%d", m.U_Days, []string{"", "Hemanta", "Gimha", "Vassāna"}[m.LunarSeason], m.S_Number, m.S_Total)
		if m.String() != want {
			t.Fatalf("demo: %q, want %q", m.String(), want)
		}
	})''', 'fmt')),
 dict(id='c36-padded', prop='C36', edits=[(Y, 'Tithi: %d\n', 'Tithi: %2d\n')],
  needs='a year whose tithi has one digit', what='the value is padded with a blank',
  demo=T('''
	for y := 1900; y < 2100; y++ {
		s := ini(y)
		if !strings.HasSuffix(s.SuriyaValuesString(), fmt.Sprintf("\\nTithi: %d\\n", s.Tithi)) {
			t.Fatalf("demo: %d: %q", y, s.SuriyaValuesString())
		}
	}''', 'fmt strings')),
 dict(id='c37-local-date', prop='C37', dir='utils', edits=[(V, 'su.AsalhaPuja().Format("2006-01-02")', 'su.AsalhaPuja().Local().Format("2006-01-02")')],
  needs='a local zone west of Greenwich', what='the date is a day early and every test column says FAIL',
  demo=CSV % '''
	time.Local = time.FixedZone("W", -5*3600)
	if s := yearsCsv(2016, 2016); !strings.Contains(s, ";2016-07-19;2016-07-19;OK;") {
		t.Fatalf("demo: %s", s)
	}'''),
 dict(id='c37-wrong-delta', prop='C37', dir='utils', edits=[(V, '\t\t} else if su.Would_Be_Adhikavara() {\n\t\t\tdV = "x"\n\t\t}', '\t\t} else if su.Would_Be_Adhikavara() && !su.Is_Adhikamasa() {\n\t\t\tdV = "x"\n\t\t} else if su.Would_Be_Adhikavara() {\n\t\t\tdV = strconv.Itoa(su.DeltaAdhikavara())\n\t\t}')],
  needs='an adhikamasa year that would also be adhikavara', what='the years since the last adhikavara are shown in a year that is not adhikavara',
  demo=CSV % '''
	for i, l := range strings.Split(strings.TrimSpace(yearsCsv(1900, 2041)), "\\n")[1:] {
		su := suriya.SuriyaYear{}
		su.Init(1900 + i)
		c := strings.Split(l, ";")
		if !su.Is_Adhikavara() && c[8] != "" && c[8] != "x" {
			t.Fatalf("demo: %s", l)
		}
	}'''),
 dict(id='c37-positions-swapped', prop='C37', dir='utils', edits=[(V, '\t\t\tsu.AdhikamasaCyclePos(),\n\t\t\tdM,\n\t\t\tsu.AdhikavaraCyclePos(),\n\t\t\tdV,\n\t\t\tasalhaStr', '\t\t\tsu.AdhikavaraCyclePos(),\n\t\t\tdM,\n\t\t\tsu.AdhikamasaCyclePos(),\n\t\t\tdV,\n\t\t\tasalhaStr')],
  needs='a year after 2002: up to then both cycles are at the same position', what='the positions in the two cycles are under each other\'s heading',
  demo=CSV % '''
	l := strings.Split(strings.Split(yearsCsv(2004, 2004), "\\n")[1], ";")
	if l[5] != "2" || l[7] != "21" {
		t.Fatalf("demo: %v", l)
	}'''),
 dict(id='c05-remembered-switch', prop='C05', edits=[(Y, 'func (su SuriyaYear) Is_Adhikavara() bool {', 'var varaOf = map[int]bool{}\n\nfunc (su SuriyaYear) Is_Adhikavara() bool {\n\tr, ok := varaOf[su.Year]\n\tif !ok {\n\t\tr = su.isAdhikavara()\n\t\tvaraOf[su.Year] = r\n\t}\n\treturn r\n}\n\nfunc (su SuriyaYear) isAdhikavara() bool {')],
  needs='the exceptions switched on or off between two questions about the same year', what='the first answer is given again',
  demo=T('''
	a := ini(1994)
	UseExceptions = false
	off := a.Is_Adhikavara()
	UseExceptions = true
	on := a.Is_Adhikavara()
	UseExceptions = false
	if !off || on {
		t.Fatalf("demo: 1994 is adhikavara: %v with the exceptions off, %v with them on", off, on)
	}''')),
 dict(id='c08-last-kattika', prop='C08', edits=[(H, 'func CalculatePreviousKattika(solar_year int) time.Time {\n', 'var lastKattikaYear int\nvar lastKattika time.Time\n\nfunc CalculatePreviousKattika(solar_year int) time.Time {\n\tif lastKattika.Year() == solar_year-1 || lastKattikaYear == solar_year && solar_year != 0 {\n\t\treturn lastKattika\n\t}\n'), (H, '\treturn kattika_date\n}', '\tlastKattikaYear, lastKattika = solar_year, kattika_date\n\tif solar_year%19 == 0 {\n\t\tlastKattikaYear = solar_year + 1\n\t}\n\treturn kattika_date\n}')],
  needs='a question about a year that is a multiple of 19, then one about the year after', what='the date of the earlier question is returned',
  demo=T('''
	for y := 1800; y < 2200; y++ {
		CalculatePreviousKattika(y)
		d := CalculatePreviousKattika(y + 1)
		if d.Year() != y {
			t.Fatalf("demo: %d: %v", y+1, d)
		}
	}''')),
 dict(id='c13-next-day', prop='C13', edits=[(H, 'func HorakhunToDate(horakhun int64) time.Time {', 'var lastHorakhun int64\nvar lastDate time.Time\n\nfunc HorakhunToDate(horakhun int64) time.Time {\n\tif lastHorakhun != 0 && horakhun == lastHorakhun+1 {\n\t\tlastDate = lastDate.AddDate(0, 0, 1)\n\t\treturn lastDate\n\t}\n\tlastHorakhun, lastDate = horakhun, horakhunToDate(horakhun)\n\treturn lastDate\n}\n\nfunc horakhunToDate(horakhun int64) time.Time {')],
  needs='the same horakhun asked for twice, after the one before it', what='the second time the date is a day later',
  demo=T('''
	HorakhunToDate(484049)
	a := HorakhunToDate(484050)
	b := HorakhunToDate(484050)
	if !a.Equal(b) {
		t.Fatalf("demo: %v and %v", a, b)
	}''')),
 dict(id='c13-long-step', prop='C13', edits=[(H, 'for math.Abs(float64(delta)) > float64(stepDays) {', 'for math.Abs(float64(delta)) > float64(stepDays+5000) {')],
  needs='a horakhun between 106752 and 108240 days away, or whose rest is', what='the duration overflows and the date is centuries off',
  demo=T('''
	for _, h := range []int64{484049 - 480000, 484049 - 108000, 484049 + 107000, 484049 + 1000000} {
		want := dt(1963, 7, 5).AddDate(0, 0, int(h-484049))
		if got := HorakhunToDate(h); got.Year() != want.Year() || got.YearDay() != want.YearDay() {
			t.Fatalf("demo: %d: %v, want %v", h, got, want)
		}
	}''')),
]
