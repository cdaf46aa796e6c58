R = []
def b(i, p, *ed): R.append(dict(id=i, prop=p, edits=list(ed)))
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'; E='calendar_event.go'; S='suriya.go'; G='data.go'; HM='half_moon.go'; ME='major_event.go'; EV='event.go'; AM='aeris_moon.go'
b('e-init-cache','C01',(Y,'func (su *SuriyaYear) Init(ce_year int) {','var initCache = map[int]SuriyaYear{}\n\nfunc (su *SuriyaYear) Init(ce_year int) {\n\tif c, ok := initCache[ce_year%1000]; ok && c.CS_Year/1000 == (ce_year-CSdiff)/1000 {\n\t\t*su = c\n\t\treturn\n\t}\n\tdefer func() { initCache[ce_year%1000] = *su }()'))
b('e-init-int32','C01',(Y,'a = (su.CS_Year * EraDays) + EraHorakhun','a = int(int32(su.CS_Year)*EraDays) + EraHorakhun'))
b('e-init-float32','C01',(Y,'b = int(math.Floor(float64(a) / CycleSolar))','b = int(math.Floor(float64(float32(a)) / CycleSolar))'))
b('e-ucc-year','C01',(Y,'su.Uccabala = (su.Horakhun + EraUccabala) % 3232','su.Uccabala = (su.Horakhun%3232 + EraUccabala) % 3232\n\tif su.Horakhun > 3000000 {\n\t\tsu.Uccabala = (su.Uccabala + 1) % 3232\n\t}'))
b('e-kamma-mod','C02',(Y,'su.Kammacubala = KammacubalaDaily - a%KammacubalaDaily','su.Kammacubala = (KammacubalaDaily - a%KammacubalaDaily) % KammacubalaDaily'))
b('e-leap-next','C02',(Y,'return su.Kammacubala <= 207','var next SuriyaYear\n\tnext.Init(su.CS_Year + CSdiff + 1)\n\treturn next.Kammacubala-su.Kammacubala >= 593 || su.Kammacubala == 207 && su.Avoman > 0'))
b('e-masa-prev','C03',(Y,'return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()','return su.Would_Be_Adhikamasa() && (!su_next.Would_Be_Adhikamasa() || su_next.Tithi < su.Tithi && su_next.Tithi == 5)'))
b('e-masa-be','C03',(Y,'su_next.Init(su.Year + 1)\n\treturn','su_next.Init(su.BE_Year - BEdiff + 1)\n\tif su.Tithi == 0 {\n\t\treturn true\n\t}\n\treturn'))
b('e-vara-order','C04',(Y,'	if su.Has_Carried_Adhikavara() {\n		return true\n	} else {\n		return su.Would_Be_Adhikavara()\n	}','	if su.Would_Be_Adhikavara() {\n		return true\n	}\n	return su.Has_Carried_Adhikavara() && su.Avoman > 137'))
b('e-vara-carry-leap','C04',(Y,'return last_year.Is_Adhikamasa() && last_year.Would_Be_Adhikavara()','return last_year.Is_Adhikamasa() && last_year.Avoman <= 126'))
b('e-vara-cached','C04',(Y,'func (su SuriyaYear) Has_Carried_Adhikavara() bool {','var lastCarried struct {\n\tyear  int\n\tvalue bool\n}\n\nfunc (su SuriyaYear) Has_Carried_Adhikavara() (r bool) {\n\tif lastCarried.year != 0 && lastCarried.year == su.Year-1 {\n\t\treturn lastCarried.value\n\t}\n\tdefer func() { lastCarried.year, lastCarried.value = su.Year, r }()'))
b('e-exc-write','C05',(Y,'			return AdhikavaraExceptions[su.Year]\n','			r := AdhikavaraExceptions[su.Year]\n			if r {\n				AdhikavaraExceptions[su.Year+1] = false\n			}\n			return r\n'))
b('e-exc-masa','C05',(Y,'	if UseExceptions {\n','	if UseExceptions && !su.Is_Adhikamasa() {\n'))
b('e-exc-or','C05',(Y,'			return AdhikavaraExceptions[su.Year]\n','			if AdhikavaraExceptions[su.Year] {\n				return true\n			}\n'))
b('e-length-exc','C06',(Y,'	// In a common year, there are six','	if d, ok := AdhikavaraExceptions[su.Year]; ok && d {\n		return 355\n	}\n	// In a common year, there are six'))
b('e-length-both','C06',(Y,'		days = days + 30\n	} else if su.Is_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.','		days = days + 30\n	}\n	if su.Is_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.'))
b('e-asalha-next','C07',(Y,'CalculatePreviousKattika(su.Year)','CalculatePreviousKattika(su.BE_Year - BEdiff + su.Masaken/100000)'))
b('e-kat-memo','C08',(H,'func CalculatePreviousKattika(solar_year int) time.Time {\n','var kattikaMemo = map[int]time.Time{}\n\nfunc CalculatePreviousKattika(solar_year int) (result time.Time) {\n	if d, ok := kattikaMemo[solar_year]; ok {\n		return d\n	}\n	defer func() { kattikaMemo[solar_year] = result }()\n'))
b('e-kat-adddate','C08',(H,'kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)','kattika_date = kattika_date.AddDate(0, 0, n*direction)\n		if direction < 0 && kattika_date.Year() > y {\n			kattika_date = kattika_date.AddDate(0, 0, -1)\n		}'))
b('e-kat-fast','C08',(H,'	// Determine the direction of stepping','	if solar_year > 2500 {\n		kattika_date = kattika_date.AddDate(247, 0, 0)\n	}\n\n	// Determine the direction of stepping'))
b('e-day-avoman','C09',(SD,'	suDay.Avoman = ai % CycleSolar','	suDay.Avoman = (suYear.Avoman + elapsedDays*CycleDaily) % CycleSolar'))
b('e-day-ucc','C09',(SD,'suDay.Uccabala = (suDay.Horakhun + EraUccabala) % 3232','suDay.Uccabala = suYear.Uccabala + elapsedDays\n	if suDay.Uccabala > 3232 {\n		suDay.Uccabala -= 3232\n	}'))
b('e-day-tithi','C09',(SD,'suDay.Tithi = bi % MonthLength','suDay.Tithi = (suYear.Tithi + elapsedDays) % MonthLength'))
b('e-day-masa','C09',(SD,'suDay.Masaken = int(math.Floor(float64(bi / MonthLength)))','suDay.Masaken = suYear.Masaken + (suYear.Tithi+elapsedDays)/MonthLength'))
b('e-sun-abs','C10',(SD,'a = math.Abs(meanSun - 80)','a = math.Abs(suDay.MeanSun - 80)'))
b('e-sun-floor','C10',(SD,'b = math.Floor(134 * math.Sin(a*radconv))','b = math.Trunc(134 * math.Sin(a*radconv))'))
b('e-moon-avo','C10',(SD,'math.Floor(float64(suDay.Avoman)/25)','math.Floor(float64(suYear.Avoman)/25)'))
b('e-moon-40','C10',(SD,'RalToDegree(0, 0, 40)','40.0/60'))
b('e-raek-13','C10',(SD,'a = RalToDegree(0, 13, 20)','a = 360.0 / 27'))
b('e-radconv','C10',(SD,'radconv := math.Pi / 180','radconv := 3.14159 / 180'))
b('e-norm-once','C11',(H,'	return deg - math.Floor(deg/360)*360','	if deg < 0 {\n		return deg + 360\n	}\n	return deg - math.Floor(deg/360)*360'))
b('e-norm-mod','C11',(H,'	return deg - math.Floor(deg/360)*360','	return math.Mod(deg, 360)'))
b('e-norm-eps','C11',(H,'deg >= 0 && deg <= 360','deg >= 0 && deg <= 360.01'))
b('e-ral-eps','C12',(H,'z = int(math.Floor((degree - math.Floor(degree)) * 60))','z = int(math.Floor((degree-math.Floor(degree))*60 + 1e-7))'))
b('e-ral-x','C12',(H,'x = int(math.Floor(degree / 30))','x = int(math.Floor(math.Round(degree*10000) / 10000 / 30))'))
b('e-ral-str2','C12',(H,"%d:%d°%d'","%d:%d°%02d'"))
b('e-hora-abs','C13',(H,'math.Abs(float64(delta)) > float64(stepDays)','float64(delta) > float64(stepDays)'))
b('e-hora-int32','C13',(H,'	stepDays = 290 * 356','	stepDays = 290 * 385'))
b('e-cycle-neg','C14',(Y,'return ((su.Year-1984)%19+19)%19 + 1','p := (su.Year - 1984) % 19\n	if p <= 0 {\n		p += 19\n	}\n	return p%19 + 1 + 0*p'))
b('e-cycle-57','C14',(Y,'return ((su.Year-1984)%57+57)%57 + 1','p := (su.Year-1984)%57 + 1\n	if p < 0 {\n		p += 57\n	}\n	return p'))
b('e-delta-self','C15',(Y,'return su.Year - check.Year\n		}\n		// Avoid looking forever.\n		if su.Year-check.Year > 6','if check.Year < 1900 && su.Year-check.Year == 1 {\n				continue\n			}\n			return su.Year - check.Year\n		}\n		// Avoid looking forever.\n		if su.Year-check.Year > 6'))
b('e-next-13','C17',(U,'if lu.LunarMonth == 13 {','if lu.LunarMonth == 13 && is_adhikamasa_year {'))
b('e-next-vara','C17',(U,'if is_adhikavara_year && nu.LunarMonth == 8 {','if is_adhikavara_year && nu.LunarMonth == 8 && lu.M_Days == 30 && lu.Date.Month() > time.May {'))
b('e-next-flag','C17',(U,'nu.HasAdhikavara = false','nu.HasAdhikavara = lu.HasAdhikavara'))
b('e-next-lunaryear','C19',(U,'			if lu.LunarMonth == 12 {\n				nu.LunarSeason = 1','			if lu.LunarSeason == 3 || lu.LunarMonth == 12 {\n				nu.LunarSeason = 1'))
b('e-next-inityear','C17',(U,'su_year.Init(lu.Date.Year())','su_year.Init(lu.LunarYear - BEdiff)'))
b('e-next-inityear15','C17',(U,'su_year.Init(lu.Date.Year())','su_year.Init(lu.Date.AddDate(0, 0, 15).Year())'))
b('e-next-total','C19',(U,'(nu.LunarMonth >= 5 && nu.LunarMonth <= 8)','(lu.LunarMonth >= 5 && nu.LunarMonth <= 8)'))
b('e-fest-switch','C18',(U,'			case 13:\n				nu.Event = "asalha"','			case 8, 13:\n				nu.Event = "asalha"'))
b('e-solar-status','C20',(D,'		uposatha.Status = 2\n','		if uposatha.HasAdhikavara {\n			uposatha.Status = 1\n		} else {\n			uposatha.Status = 2\n		}\n'))
b('e-solar-chain','C20',(D,'		last_uposatha = uposatha\n\n		// Uposatha','		if last_uposatha.Date.Year() < solar_year && uposatha.Date.Year() == solar_year {\n			uposatha.LunarYear = solar_year + BEdiff\n		}\n		last_uposatha = uposatha\n\n		// Uposatha'))
b('e-solar-prealloc','C20',(D,'	var events []CalendarEvent\n','	events := make([]CalendarEvent, 0, 64)\n	defer func() {\n		if len(events) > 64 {\n			events = events[:64]\n		}\n	}()\n'))
b('e-solar-halfphase','C20',(D,'		var phase string\n		switch uposatha.Phase {\n		case "new":\n			phase = "waxing"\n		case "full":\n			phase = "waning"\n		}\n','		phase := "waning"\n		if uposatha.U_Days == 14 || uposatha.M_Days == 30 && uposatha.Phase == "new" && !uposatha.HasAdhikavara {\n			phase = "waxing"\n		}\n'))
b('e-major-once','C21',(D,'if uposatha.Event == "pavarana" {','if n := len(events); uposatha.Event == "pavarana" && n > 4 {'))
b('e-major-vassa','C21',(D,'Date:        uposatha.Date.AddDate(0, 0, 1),','Date:        uposatha.NextUposatha().Date.AddDate(0, 0, -14),'))
b('e-cal-years','C23',(D,'for year := fromDate.Year(); year <= toDate.Year(); year++ {\n		for _, d := range Gen','for year := fromDate.Year(); year <= toDate.AddDate(0, 0, -1).Year(); year++ {\n		for _, d := range Gen'))
b('e-cal-sorted','C23',(D,'	sort.Sort(CalDaySlice(cal_days))\n','	if !sort.IsSorted(CalDaySlice(cal_days)) || len(cal_days) > 2 {\n		sort.Sort(CalDaySlice(cal_days[:len(cal_days):len(cal_days)]))\n	}\n'))
b('e-cal-sort-less1','C23',(D,'	sort.Sort(CalDaySlice(cal_days))\n','	if len(cal_days) > 1 {\n		sort.Sort(CalDaySlice(cal_days[1:]))\n	}\n'))
b('e-cal-sortgen','C23',(D,'	sort.Sort(CalDaySlice(cal_days))\n	return cal_days','	defer sort.Sort(CalDaySlice(cal_days[:len(cal_days)/2]))\n	return cal_days'))
b('e-find-copy','C24',(D,'return &cal_days[k], nil','return &day, nil'))
b('e-find-utc','C24',(D,'date_day := time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, date.Location())','date_day := date.Truncate(24 * time.Hour)'))
b('e-find-order','C24',(D,'		if day_day.Equal(date_day) {','		if !day_day.Before(date_day) {'))
b('e-merge-date','C24',(D,'	} else {\n		event.AddToDay(day_p)\n	}\n	return cal_days','	} else {\n		before := day_p.Date\n		event.AddToDay(day_p)\n		if before.Before(day_p.Date) {\n			day_p.Date = before\n		}\n	}\n	return cal_days'))
b('e-set-value','C25',(D,'func (c *CalDay) SetHalfMoon(m HalfMoon) {\n	if len(c.HalfMoon) != 0 {\n		c.HalfMoon[0] = m','func (c *CalDay) SetHalfMoon(m HalfMoon) {\n	if len(c.HalfMoon) != 0 {\n		h := c.HalfMoon[0]\n		h = m'))
b('e-get-last','C25',(D,'m = c.AstroMoon[0]','m = c.AstroMoon[len(c.AstroMoon)/2]'))
b('e-major-prepend','C25',(ME,'day_p.MajorEvents = append(day_p.MajorEvents, e)','day_p.MajorEvents = append([]MajorEvent{e}, day_p.MajorEvents...)'))
b('e-major-dedup','C25',(ME,'	day_p.MajorEvents = append(day_p.MajorEvents, e)','	for _, o := range day_p.MajorEvents {\n		if o.Summary == e.Summary {\n			return\n		}\n	}\n	day_p.MajorEvents = append(day_p.MajorEvents, e)'))
b('e-half-shared','C26',(D,'	cal_days = append(cal_days, half_moon_days...)','	cal_days = append(half_moon_days, cal_days...)'))
b('e-half-exists','C26',(D,'			half_moon_days = append(half_moon_days, eighth_day)','			if _, err := findCalDay(cal_days, eighth_day.Date); err != nil {\n				half_moon_days = append(half_moon_days, eighth_day)\n			}'))
b('e-half-last','C26',(D,'	for _, day := range cal_days {\n		// If there','	for i, day := range cal_days {\n		if i > 0 && day.Date.Equal(cal_days[i-1].Date) {\n			continue\n		}\n		// If there'))
b('e-ical-desc','C27',(E,'		SUMMARY: d.String(),','		SUMMARY: strings.TrimSuffix(d.String(), " Day"),'),(E,'	"time"\n','	"strings"\n	"time"\n'))
b('e-ical-uidcache','C27',(E,'func icalEvent(','var icalUID = uuid.NewV4().String()\n\nfunc icalEvent('),(E,'UID:     uuid.NewV4().String()','UID:     icalUID'))
b('e-ical-ptr','C28',(C,'	for _, day := range cal_days {\n\n','	var e ical.VEvent\n	for _, day := range cal_days {\n\n'),(C,'			e := day.HalfMoon[0].IcalEvent()','			e = day.HalfMoon[0].IcalEvent()'))
b('e-ical-events','C28',(C,'		for _, d := range day.Events {','		for _, d := range day.Events[:len(day.Events)/2*2] {'))
b('e-group-month','C29',(C,'		y := fmt.Sprintf("%d", day.Date.Year())','		y := fmt.Sprintf("%d", day.Date.AddDate(0, 0, -day.Date.Day()/31).Year())'))
b('e-group-local','C29',(C,'day.Date.Year())','day.Date.Local().Year())'))
b('e-out-err','C30',(C,'		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf("%s\\n", str)','		n, err := f.WriteString(str)\n		if err != nil && n == 0 {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf("%s\\n", str)'))
b('e-out-deferexit','C30',(C,'os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)','os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			return nil'))
b('e-out-log','C30',(C,'			fmt.Printf("%v", err)\n			os.Exit(1)','			fmt.Printf("%v", err)\n			os.Exit(0)'))
b('e-cli-order','C30',(C,'isoDateFmt = "2006-01-02"','isoDateFmt = "2006-02-01"'))
b('e-astro-goto','C31',(A,'				continue\n			}\n			m.Phase','				break\n			}\n			m.Phase'))
b('e-astro-code','C31',(A,'phaseCodes[aemoon.Code]','phaseCodes[aemoon.Code&1<<1]'))
b('e-astro-err','C31',(A,'if len(resp.Error.Code) != 0 {','if len(resp.Error.Code) != 0 && len(resp.Response) == 0 {'))
b('e-astro-local','C31',(A,'aemoon.DateTimeISO.UTC()','aemoon.DateTimeISO.In(fromDate.Location())'))
b('e-esc-file','C33',(G,'Reader:   bytes.NewReader(f.data),','Reader:   bytes.NewReader(f.data[:f.size/2*2]),'))
b('e-esc-dir','C33',(G,'dir.fs.Open(dir.name + name)','dir.fs.Open(dir.name + path.Base(name))'))
b('e-esc-write','C33',(G,'	f.data, err = ioutil.ReadAll(gr)\n','	f.data, err = ioutil.ReadAll(gr)\n		if err != nil {\n			delete(_escData, name)\n		}\n'))
b('e-table-vassa','C34',(H,'2: "Gimha",','2: "Gimhāna",'))
b('e-table-lower','C34',(H,'return monthToInt[month]','return monthToInt[strings.ToLower(month)]'),(H,'	"math"\n','	"math"\n	"strings"\n'))
b('e-state-verbose','C35',(A,'			if verbose {\n				log.Printf("%v, %s\\n", err, filepath)','			verbose = true\n			if verbose {\n				log.Printf("%v, %s\\n", err, filepath)'))
b('e-state-now','C35',(D,'	sort.Sort(CalDaySlice(cal_days))\n','	if time.Now().Before(fromDate) && len(cal_days) > 0 {\n		cal_days[0].Events = nil\n	}\n	sort.Sort(CalDaySlice(cal_days))\n'))
b('e-values-order','C36',(Y,'su.Uccabala, su.Avoman, su.Masaken','su.Avoman, su.Uccabala, su.Masaken'))
b('e-text-season','C36',(U,'SeasonName(m.LunarSeason)','SeasonName((m.LunarMonth-1)/4+1)'))
b('e-text-year','C36',(Y,'strconv.Itoa(su.Year)\n','strconv.Itoa(su.BE_Year - 543)\n	if su.Year < 0 {\n		n = "0"\n	}\n'))
b('e-csv-header','C37',(V,'K;A;T;nM','K;T;A;nM'))
b('e-csv-range','C37',(V,'yearsCsv(1970, 2041)','yearsCsv(1970, 2040)'))
b('e-csv-tyear','C37',(V,'		var tYear testYear\n		tYear, ok := testYears[year]\n','		tYear, ok := testYears[su.CS_Year+638-year/2050]\n'))
b('e-csv-vara','C37',(V,'		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else if','		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikamasa())\n		} else if'))
