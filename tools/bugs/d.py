R = []
def b(i, p, *ed): R.append(dict(id=i, prop=p, edits=list(ed)))
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'; E='calendar_event.go'; S='suriya.go'; G='data.go'; HM='half_moon.go'; ME='major_event.go'; EV='event.go'; AM='aeris_moon.go'
# fresh bugs, written as somebody would who only knows the properties
b('d-jan-skip','C20',(D,'if uposatha.Date.Year() == solar_year {\n\t\t\tevents','if uposatha.Date.Year() == solar_year && uposatha.Date.YearDay() > 1 {\n\t\t\tevents'))
b('d-half-dec31','C20',(D,'if halfmoon.GetDate().Year() == solar_year {','if halfmoon.GetDate().Year() == solar_year && halfmoon.GetDate().Before(time.Date(solar_year, 12, 31, 0, 0, 0, 0, time.UTC)) {'))
b('d-half-calc','C20',(D,'Date:  uposatha.Date.AddDate(0, 0, 8),','Date:  uposatha.Date.AddDate(0, 0, 8+uposatha.S_Number/10),'))
b('d-half-vara','C20',(D,'Date:  uposatha.Date.AddDate(0, 0, 8),','Date:  uposatha.Date.Add(time.Duration(uposatha.U_Days/2+1) * 24 * time.Hour),'))
b('d-dup','C20',(D,'		if uposatha.Date.Year() == solar_year {\n			events = append(events, uposatha)\n		}','		if uposatha.Date.Year() == solar_year {\n			events = append(events, uposatha)\n			if uposatha.HasAdhikavara {\n				events = append(events, uposatha)\n			}\n		}'))
b('d-loop-10','C20',(D,'for last_uposatha.Date.Year() <= solar_year {','for i := 0; i < 27 && last_uposatha.Date.Year() <= solar_year; i++ {'))
b('d-loop-lunaryear','C20',(D,'for last_uposatha.Date.Year() <= solar_year {','for last_uposatha.LunarYear <= solar_year+BEdiff {'))
b('d-kattika-vara','C20',(D,'		M_Days:      29,','		M_Days:      30,'))
b('d-pavarana-last','C21',(D,'				// Last day of Vassa\n				e = MajorEvent{\n					Date:        uposatha.Date,','				// Last day of Vassa\n				e = MajorEvent{\n					Date:        uposatha.Date.AddDate(0, 0, uposatha.U_Days-15),'))
b('d-magha-late','C21',(D,'if uposatha.Event == "magha" {','if uposatha.Event == "magha" && uposatha.Date.Month() == time.February {'))
b('d-asalha-adhik','C21',(D,'if uposatha.Event == "asalha" {','if uposatha.Event == "asalha" && !uposatha.HasAdhikavara && uposatha.M_Days == 29 {'))
b('d-vassa-year','C21',(D,'			if uposatha.Event == "pavarana" {','			if uposatha.Event == "pavarana" && uposatha.LunarSeason == 3 && uposatha.S_Number != 6 {'))
b('d-cal-days-dup','C23',(D,'	sort.Sort(CalDaySlice(cal_days))\n	return cal_days','	sort.Sort(CalDaySlice(cal_days))\n	if len(cal_days) > 366 {\n		cal_days = cal_days[:366]\n	}\n	return cal_days'))
b('d-range-astro','C23',(D,'for _, d := range GetAstroMoons(fromDate, toDate) {','for _, d := range GetAstroMoons(fromDate, toDate.AddDate(0, 0, -1)) {'))
b('d-from-noon','C23',(D,'if d.GetDate().Before(fromDate) ||','if d.GetDate().Add(12*time.Hour).Before(fromDate) ||'))
b('d-less-unix','C23',(D,'return s[j].Date.After(s[i].Date)','return int32(s[j].Date.Unix()) > int32(s[i].Date.Unix())'))
b('d-less-month','C23',(D,'return s[j].Date.After(s[i].Date)','return s[i].Date.Year() < s[j].Date.Year() || s[i].Date.Year() == s[j].Date.Year() && s[i].Date.Month() < s[j].Date.Month()'))
b('d-less-format','C23',(D,'return s[j].Date.After(s[i].Date)','return s[i].Date.Format("2006-1-2") < s[j].Date.Format("2006-1-2")'))
b('d-swap','C23',(D,'s[i], s[j] = s[j], s[i]','s[i].Date, s[j].Date = s[j].Date, s[i].Date'))
b('d-find-month','C24',(D,'		if day_day.Equal(date_day) {','		if day_day.Month() == date_day.Month() && day_day.Day() == date_day.Day() {'))
b('d-find-last','C24',(D,'	for k, day := range cal_days {\n		day_day','	for k, day := range cal_days {\n		if k == 0 && len(cal_days) > 1 {\n			continue\n		}\n		day_day'))
b('d-find-bin','C24',(D,'	for k, day := range cal_days {\n		day_day','	for k, day := range cal_days {\n		if day.Date.After(date.AddDate(0, 0, 1)) {\n			break\n		}\n		day_day'))
b('d-merge-lost','C24',(D,'		cal_days = append(cal_days, *day_p)\n','		cal_days = append(cal_days, CalDay{Date: event.GetDate()})\n'))
b('d-merge-insert','C24',(D,'		cal_days = append(cal_days, *day_p)\n','		cal_days = append(cal_days[:len(cal_days):cap(cal_days)], *day_p)\n'))
b('d-add-phase','C26',(D,'if len(day.UposathaMoon) != 0 {\n			// Eight','if len(day.UposathaMoon) != 0 && len(day.HalfMoon) == 0 {\n			// Eight'))
b('d-add-twice','C26',(D,'eighth_day := CalDay{Date: day.Date.AddDate(0, 0, 8)}','eighth_day := day\n			eighth_day.Date = day.Date.AddDate(0, 0, 8)'))
b('d-ical-loc','C27',(E,'d.GetDate().Location().String()','time.Now().Location().String()'))
b('d-ical-end','C27',(E,'d.GetDate().Add(24 * time.Hour)','time.Now().Add(24 * time.Hour)'))
b('d-ical-trunc','C27',(E,'DTSTART: d.GetDate(),','DTSTART: d.GetDate().Truncate(24 * time.Hour),'))
b('d-uid-v1','C27',(E,'uuid.NewV4().String()','uuid.Nil.String()'))
b('d-ical-skip-phase','C28',(C,'		if len(day.UposathaMoon) != 0 {\n','		if len(day.UposathaMoon) != 0 && day.UposathaMoon[0].Status == 2 {\n'))
b('d-ical-year','C28',(C,'	for _, day := range cal_days {\n\n		// Upos','	for _, day := range cal_days {\n		if day.Date.Year() > dates["fromDate"].Year()+10 {\n			break\n		}\n\n		// Upos'))
b('d-caldays-date','C29',(C,'y := fmt.Sprintf("%d", day.Date.Year())','y := day.Date.Format("06")'))
b('d-caldays-cap','C29',(C,'days_by_year[y] = append(days_by_year[y], day)','if len(days_by_year[y]) < 150 {\n			days_by_year[y] = append(days_by_year[y], day)\n		}'))
b('d-cli-swap','C30',(C,'	return dates\n','	if dates["toDate"].Before(dates["fromDate"]) {\n		dates["fromDate"], dates["toDate"] = dates["toDate"], dates["fromDate"]\n	}\n	return dates\n'))
b('d-cli-env','C30',(C,'	if len(c.String("from")) > 0 {','	if c.IsSet("from") {'))
b('d-cli-default','C30',(C,'dates["toDate"] = time.Date(time.Now().Year(), 12, 31','dates["toDate"] = time.Date(dates["fromDate"].Year(), 12, 31'))
b('d-file-mode','C30',(C,'0644)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n		defer f.Close()\n\n		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf("%s\\n"','0644)\n		if err != nil && !os.IsPermission(err) {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n		defer f.Close()\n\n		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf("%s\\n"'))
b('d-astro-month','C31',(A,'if m.Date.Before(fromDate) || m.Date.After(toDate) {','if m.Date.Year() != year || m.Date.Before(fromDate) || m.Date.After(toDate) {'))
b('d-astro-equal','C31',(A,'if m.Date.Before(fromDate)','if !m.Date.After(fromDate)'))
b('d-astro-time','C31',(A,'aemoon.DateTimeISO.UTC()','aemoon.DateTimeISO.UTC().Truncate(time.Minute)'))
b('d-astro-cap','C31',(A,'		for _, aemoon := range resp.Response {','		for i, aemoon := range resp.Response {\n			if i >= 50 {\n				break\n			}'))
b('d-astro-century','C31',(A,'year <= toDate.Year(); year++','year <= toDate.Year() && year < fromDate.Year()+100; year++'))
b('d-astro-name','C31',(A,'phaseCodes[aemoon.Code]','strings.Fields(aemoon.Name)[0]'),(A,'	s "strings"\n','	s "strings"\n	"strings"\n'))
b('d-upo-newfull','C16',(U,'	if lu.Phase == "new" {','	if lu.Phase != "full" {'))
b('d-upo-days-m','C16',(U,'		nu.U_Days = 15\n		nu.M_Days','		nu.U_Days = lu.M_Days - lu.U_Days\n		nu.M_Days'))
b('d-upo-status','C16',(U,'nu.Calendar = 0 // mahanikaya','nu.Calendar = lu.Calendar // mahanikaya'))
b('d-upo-dst','C16',(U,'lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)','lu.Date.AddDate(0, 0, nu.U_Days)'))
b('d-month-mod','C17',(U,'		} else if lu.LunarMonth == 12 {\n			nu.LunarMonth = 1\n','		} else if lu.LunarMonth == 12 && lu.S_Number == lu.S_Total {\n			nu.LunarMonth = 1\n'))
b('d-month-2nd','C17',(U,'lu.LunarMonth == 8 && is_adhikamasa_year','lu.LunarMonth == 8 && lu.S_Total == 10'))
b('d-vara-month7','C17',(U,'if is_adhikavara_year && nu.LunarMonth == 8 {','if is_adhikavara_year && nu.LunarMonth == 8 && nu.LunarMonth-lu.LunarMonth == 1 && lu.M_Days == 30 {'))
b('d-vara-next','C17',(U,'su_year.Is_Adhikavara()','su_year.Is_Adhikavara() && su_year.Avoman < 137'))
b('d-fest-date','C18',(U,'			case 4:\n				nu.Event = "magha"','			case 4:\n				if lu.Date.Month() > 1 {\n					nu.Event = "magha"\n				}'))
b('d-fest-year','C18',(U,'	if nu.Phase == "full" {\n\n','	if nu.Phase == "full" {\n		if lu.LunarYear != lu.Date.Year()+BEdiff && lu.LunarMonth < 3 {\n			is_adhikamasa_year = false\n		}\n\n'))
b('d-season-no','C19',(U,'nu.LunarSeason = lu.LunarSeason + 1','nu.LunarSeason = lu.LunarSeason%3 + 1'))
b('d-season-month','C19',(U,'nu.LunarSeason = lu.LunarSeason + 1','nu.LunarSeason = nu.LunarMonth/4 + 1'))
b('d-season-full','C19',(U,'nu.S_Number = lu.S_Number + 1\n		nu.S_Total','nu.S_Number = lu.S_Number%lu.S_Total + 1\n		nu.S_Total'))
b('d-lunaryear-date','C19',(U,'nu.LunarYear = lu.LunarYear + 1','nu.LunarYear = lu.LunarYear + 1 + (lu.Date.Year()+BEdiff-lu.LunarYear)/2'))
b('d-exc-any','C05',(Y,'if _, ok := AdhikavaraExceptions[su.Year]; ok {','if _, ok := AdhikavaraExceptions[su.Year]; ok || su.BE_Year%100 == 37 {'))
b('d-exc-prev','C05',(Y,'	if su.Has_Carried_Adhikavara() {\n		return true','	if r, ok := AdhikavaraExceptions[su.Year-1]; ok && UseExceptions && r {\n		return false\n	}\n	if su.Has_Carried_Adhikavara() {\n		return true'))
b('d-len-carry','C06',(Y,'	} else if su.Is_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.','	} else if su.Would_Be_Adhikavara() || su.Has_Carried_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.'))
b('d-asalha-31','C07',(Y,'date := prev_kattika.Add(time.Duration(days) * time.Hour * 24)','date := time.Date(prev_kattika.Year(), 12, prev_kattika.Day()+days-30, 0, 0, 0, 0, time.UTC)'))
b('d-kat-back','C08',(H,'			su_year.Init(y)\n','			su_year.Init(y + direction + 1 - y/5000)\n'))
b('d-kat-fmt','C08',(H,'"2015-11-25"','"2015-11-26"'))
b('d-kat-limit','C08',(H,'y != solar_year-1; y += direction {','y != solar_year-1 && y > 0; y += direction {'))
b('d-kat-vara-exc','C08',(H,'		} else if su_year.Is_Adhikavara() {','		} else if su_year.Would_Be_Adhikavara() || su_year.Has_Carried_Adhikavara() {'))
b('d-day-date','C09',(SD,'suDay.Day = lunar_year_day','suDay.Day = (lunar_year_day-1)%384 + 1'))
b('d-day-masaken','C09',(SD,'suDay.Masaken = int(math.Floor(float64(bi / MonthLength)))','suDay.Masaken = int(math.Round(float64(bi) / MonthLength))'))
b('d-day-stale','C09',(SD,'	suDay.Horakhun = suYear','	suDay.Horakhun += 0\n	suDay.Horakhun = suYear'))
b('d-moon-floor','C10',(SD,'b = (296 * math.Sin(a*radconv)) / 60','b = math.Floor(296*math.Sin(a*radconv)) / 60'))
b('d-moon-ucc','C10',(SD,'float64(suYear.Uccabala+elapsedDays)','float64((suYear.Uccabala+elapsedDays)%3232)'))
b('d-sun-3','C10',(SD,'	z -= 3\n','	if z -= 3; z < 0 {\n		z = 0\n	}\n'))
b('d-raek','C10',(SD,'suDay.Raek = suDay.TrueMoon/a + 1','suDay.Raek = math.Min(suDay.TrueMoon/a+1, 28)'))
b('d-norm-zero','C11',(SD,'suDay.MeanMoon = NormalizeDegree(','suDay.MeanMoon = math.Abs('))
b('d-ral-str','C12',(H,'u, v, t := DegreeToRal(degree)','u, v, t := DegreeToRal(math.Abs(degree))'))
b('d-ral-round','C12',(H,'z = int(math.Floor((degree - math.Floor(degree)) * 60))','z = int(math.Floor((degree-math.Floor(degree))*60+0.5)) % 60'))
b('d-ral-back','C12',(H,'float64(z*10000)/60','float64(z*10000/60)'))
b('d-hora-59','C13',(H,'23*time.Hour + 59*time.Minute + 59*time.Second','24*time.Hour - time.Minute'))
b('d-hora-neg','C13',(H,'	if delta < 0 {\n		direction = -1','	if delta < -stepDays {\n		direction = -1'))
b('d-hora-trunc','C13',(H,'	delta = horakhun - horakhunRef','	delta = int64(int32(horakhun)<<8>>8) - horakhunRef'))
b('d-delta-exc','C15',(Y,'		if check.Is_Adhikavara() {\n			return su.Year','		if check.Is_Adhikavara() && !check.Has_Carried_Adhikavara() {\n			return su.Year'))
b('d-delta-be','C15',(Y,'if su.Year-check.Year > 6 {','if su.BE_Year-check.BE_Year > 6 || check.Kammacubala == 800 {'))
b('d-text-title','C36',(U,'s.Title(m.Phase)','s.ToTitle(m.Phase[:1])+m.Phase[1:]'))
b('d-text-sep','C36',(D,'return s.Join(a, ", ")','return s.Trim(s.Join(a, ", "), ", ")'))
b('d-text-num','C36',(U,'m.U_Days, SeasonName','m.M_Days/2, SeasonName'))
b('d-text-be','C36',(Y,'su.Year, su.BE_Year, su.CS_Year,','su.Year, su.Year+543, su.Year-638,'))
b('d-csv-x','C37',(V,'			dM = strconv.Itoa(su.DeltaAdhikamasa())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else','			dM = fmt.Sprintf("%2d", su.DeltaAdhikamasa())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else'))
b('d-csv-fail','C37',(V,'				testRes = "FAIL"','				if tYear.Comments == "" {\n					testRes = "FAIL"\n				}'))
b('d-csv-listed','C37',(V,'		if ok {\n			if asalhaStr','		if ok && year > firstYear {\n			if asalhaStr'))
b('d-esc-lazy','C33',(G,'		f.name = path.Base(name)','		f.name = path.Base(name)\n		if f.local != "" && path.Ext(name) != ".json" {\n			return\n		}'))
b('d-esc-err','C33',(G,'	b, err := FSByte(useLocal, name)\n	return string(b), err','	b, err := FSByte(useLocal, name)\n	if len(b) > 0 {\n		err = nil\n	}\n	return string(b), err'))
b('d-phasecodes','C31',(AM,'`json:"code"`','`json:"code,string"`'))
b('d-tz','C31',(AM,'`json:"dateTimeISO"`','`json:"dateTimeIso8601"`'))
