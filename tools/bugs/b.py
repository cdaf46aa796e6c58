R = []
def b(i, p, *ed): R.append(dict(id=i, prop=p, edits=list(ed)))
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'; E='calendar_event.go'; S='suriya.go'; G='data.go'; HM='half_moon.go'; ME='major_event.go'; EV='event.go'; AM='aeris_moon.go'
# C01
b('01-horakhun-ceil','C01',(Y,'int(math.Floor(float64(a/KammacubalaDaily + 1)))','int(math.Ceil(float64(a) / KammacubalaDaily))'))
b('01-uccabala-year','C01',(Y,'(su.Horakhun + EraUccabala) % 3232','(su.Horakhun + EraUccabala + su.CS_Year/EraYears) % 3232'))
b('01-avoman-float','C01',(Y,'su.Avoman = a % CycleSolar','su.Avoman = int(math.Mod(float64(float32(a)), CycleSolar))'))
b('01-tithi-masaken','C01',(Y,'su.Tithi = (b + su.Horakhun) % MonthLength','su.Tithi = (b+su.Horakhun)%MonthLength + su.Masaken/99999'))
b('01-keep-init','C01',(Y,'	su.Year = ce_year\n','	if su.Year == ce_year {\n		return\n	}\n	su.Year = ce_year\n'))
b('01-be-keep','C01',(Y,'su.BE_Year = su.Year + BEdiff','if su.BE_Year == 0 {\n		su.BE_Year = su.Year + BEdiff\n	}'))
b('01-int32','C01',(Y,'a = (su.CS_Year * EraDays) + EraHorakhun','a = int(int32(su.CS_Year*EraDays)) + EraHorakhun'))
b('01-eramasaken','C01',(S,'EraMasaken       = 0','EraMasaken       = 1'))
b('01-round','C01',(Y,'b = int(math.Floor(float64(a) / CycleSolar))','b = int(math.Floor(float64(a)/CycleSolar + 0.001))'))
b('01-cs-year0','C01',(Y,'su.CS_Year = su.Year - CSdiff','su.CS_Year = su.Year - CSdiff\n	if su.CS_Year < 1 {\n		su.CS_Year = 1\n	}'),)
b('01-cs-cap','C01',(Y,'su.CS_Year = su.Year - CSdiff','su.CS_Year = (su.Year - CSdiff) % 9000'))
# C02
b('02-leap-200','C02',(Y,'return su.Kammacubala <= 207','return su.Kammacubala < 207'))
b('02-leap-calc','C02',(Y,'return su.Kammacubala <= 207','return su.Kammacubala%KammacubalaDaily < 208'))
b('02-leap-greg','C02',(Y,'return su.Kammacubala <= 207','return su.Kammacubala <= 207 && su.Year%800 != 0'))
b('02-kamma-mod','C02',(Y,'su.Kammacubala = KammacubalaDaily - a%KammacubalaDaily','su.Kammacubala = KammacubalaDaily - (a+1)%KammacubalaDaily'))
# C03
b('03-next-only','C03',(Y,'return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()','return !su_next.Is_Adhikamasa() && su.Would_Be_Adhikamasa()'))
b('03-prev','C03',(Y,'su_next.Init(su.Year + 1)','su_next.Init(su.Year - 1)'))
b('03-tithi-5','C03',(Y,'(t >= 0 && t <= 5)','(t >= 0 && t < 5)'))
b('03-tithi-zero','C03',(Y,'(t >= 0 && t <= 5)','(t > 0 && t <= 5)'))
b('03-cs-init','C03',(Y,'su_next.Init(su.Year + 1)','su_next.Init(su.BE_Year - BEdiff + 2)'))
b('03-cache','C03',(Y,'func (su SuriyaYear) Is_Adhikamasa() bool {','var masaCache = map[int]bool{}\n\nfunc (su SuriyaYear) Is_Adhikamasa() bool {\n	if r, ok := masaCache[su.Year%1000]; ok {\n		return r\n	}'),(Y,'	return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()','	masaCache[su.Year%1000] = !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()\n	return masaCache[su.Year%1000]'))
# C04
b('04-avo-swap','C04',(Y,'return su.Avoman <= 126','return su.Avoman < 126'))
b('04-carry-order','C04',(Y,'	if su.Is_Adhikamasa() {\n		return false\n	}\n	if su.Has','	if su.Has'))
b('04-carry-is','C04',(Y,'return last_year.Is_Adhikamasa() && last_year.Would_Be_Adhikavara()','return last_year.Is_Adhikamasa() && su.Would_Be_Adhikavara()'))
b('04-carry-would','C04',(Y,'return last_year.Is_Adhikamasa() &&','return last_year.Would_Be_Adhikamasa() &&'))
b('04-leap-next','C04',(Y,'	if su.Is_Suriya_Leap() {\n		// Both','	if su.Kammacubala < 207 {\n		// Both'))
b('04-exclusive','C04',(Y,'	if su.Has_Carried_Adhikavara() {\n		return true','	if su.Has_Carried_Adhikavara() {\n		return !su.Would_Be_Adhikavara() || su.Avoman > 0'))
# C05
b('05-default-on','C05',(S,'var UseExceptions bool = false','var UseExceptions bool = true'))
b('05-table','C05',(S,'	1994: false,','	1994: false,\n	2067: false,'))
b('05-be','C05',(Y,'if _, ok := AdhikavaraExceptions[su.Year]; ok {\n			return AdhikavaraExceptions[su.Year]\n		}','if r, ok := AdhikavaraExceptions[su.Year]; ok && !r {\n			return r\n		}'))
b('05-neighbour','C05',(Y,'	if su.Has_Carried_Adhikavara() {\n		return true','	if _, ok := AdhikavaraExceptions[su.Year-1]; ok && UseExceptions {\n		return false\n	}\n	if su.Has_Carried_Adhikavara() {\n		return true'))
b('05-first','C05',(Y,'	if UseExceptions {\n','	if UseExceptions || len(AdhikavaraExceptions) > 2 {\n'))
# C06
b('06-both','C06',(Y,'	} else if su.Is_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.','	}\n	if su.Is_Adhikavara() || su.Is_Adhikamasa() && su.Would_Be_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.'))
b('06-29','C06',(Y,'		// In an adhikamāsa year, there is an extra 30 day month.\n		days = days + 30','		// In an adhikamāsa year, there is an extra 30 day month.\n		days = days + 30\n		if su.Has_Carried_Adhikavara() {\n			days--\n		}'))
# C07
b('07-local','C07',(Y,'prev_kattika := CalculatePreviousKattika(su.Year)','prev_kattika := CalculatePreviousKattika(su.Year).Local()'))
b('07-adddate','C07',(Y,'date := prev_kattika.Add(time.Duration(days) * time.Hour * 24)','date := time.Date(su.Year-1, 11, prev_kattika.Day()+days, 0, 0, 0, 0, time.UTC)'))
b('07-vara','C07',(Y,'		// In an adhikavāra year, the 8th month (Asalha) is 30 days instead of 29 days.\n		days = days + 1','		// In an adhikavāra year, the 8th month (Asalha) is 30 days instead of 29 days.\n		if !su.Has_Carried_Adhikavara() {\n			days = days + 1\n		}'))
b('07-csyear','C07',(Y,'CalculatePreviousKattika(su.Year)\n	date','CalculatePreviousKattika(su.Year + (su.BE_Year-su.Year)/600)\n	date'),)
b('07-beyear','C07',(Y,'CalculatePreviousKattika(su.Year)\n	date','CalculatePreviousKattika(su.BE_Year - su.CS_Year%600)\n	date'),)
# C08
b('08-backstep','C08',(H,'su_year.Init(y)\n','su_year.Init(y - 1)\n'))
b('08-vara-dir','C08',(H,'n += 1\n','n += direction\n'))
b('08-year-cond','C08',(H,'for y := kattika_date.Year(); y != solar_year-1; y += direction {','for y := kattika_date.Year(); y*direction < (solar_year-1)*direction; y += direction {'))
b('08-kyear','C08',(H,'for y := kattika_date.Year(); y != solar_year-1; y += direction {','for y := 2015; kattika_date.Year() != solar_year-1; y += direction {'))
b('08-dir-eq','C08',(H,'if kattika_date.Year() < solar_year-1 {\n		direction = 1','if kattika_date.Year() < solar_year {\n		direction = 1'))
b('08-cap','C08',(H,'	// Step in direction until','	if solar_year < 700 {\n		solar_year = 700\n	}\n	// Step in direction until'))
b('08-reinit','C08',(H,'		var su_year SuriyaYear\n		var n int\n','		var n int\n'),(H,'	// Step in direction until','	var su_year SuriyaYear\n	// Step in direction until'),(H,'			su_year.Init(y)\n','			if su_year.Year == 0 {\n				su_year.Init(y)\n			}\n			su_year.Year = y\n'))
b('08-exc','C08',(H,'} else if su_year.Is_Adhikavara() {\n			n += 1','} else if su_year.Is_Adhikavara() || UseExceptions && su_year.Would_Be_Adhikavara() {\n			n += 1'))
b('08-duration','C08',(H,'kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)','kattika_date = kattika_date.AddDate(0, direction*12, direction*(n-365))'))
# C09
b('09-elapsed','C09',(SD,'elapsedDays := suDay.Day - suYear.Tithi','elapsedDays := suDay.Day - suYear.Tithi%29'))
b('09-kamma','C09',(SD,'+ elapsedDays*KammacubalaDaily','+ elapsedDays*KammacubalaDaily%EraDays'))
b('09-uccabala-year','C09',(SD,'suDay.Uccabala = (suDay.Horakhun + EraUccabala) % 3232','suDay.Uccabala = suYear.Uccabala + elapsedDays'))
b('09-avoman-year','C09',(SD,'suDay.Avoman = ai % CycleSolar','suDay.Avoman = (suYear.Avoman + elapsedDays*CycleDaily) % CycleSolar'))
b('09-day-wrap','C09',(SD,'suDay.Day = lunar_year_day','suDay.Day = lunar_year_day % 385'))
b('09-masaken','C09',(SD,'suDay.Masaken = int(math.Floor(float64(bi / MonthLength)))','suDay.Masaken = suYear.Masaken + (suDay.Day-1)/MonthLength'))
b('09-stale','C09',(SD,'suDay.Tithi = bi % MonthLength','suDay.Tithi = bi % MonthLength\n	if suDay.Tithi == 0 {\n		suDay.Tithi = MonthLength\n	}'))
b('09-early','C09',(SD,'	suYear := SuriyaYear{}\n','	if suDay.Year == ce_year && suDay.Day == lunar_year_day {\n		return\n	}\n	suYear := SuriyaYear{}\n'))
# C10
b('10-z-clamp','C10',(SD,'	z -= 3\n','	if z > 3 {\n		z -= 3\n	}\n'))
b('10-abs','C10',(SD,'a = math.Abs(meanSun - 80)','a = meanSun - 80'))
b('10-sin-round','C10',(SD,'b = math.Floor(134 * math.Sin(a*radconv))','b = math.Trunc(134 * math.Sin(a*radconv))'))
b('10-avoman-int','C10',(SD,'math.Floor(float64(suDay.Avoman)/25)) / 60','float64((suDay.Avoman+1)/25)) / 60'))
b('10-ucc-day','C10',(SD,'float64(suYear.Uccabala+elapsedDays) * 3','float64(suDay.Uccabala) * 3'))
b('10-tithi-year','C10',(SD,'(float64(suDay.Tithi) * 12)','float64((suDay.Tithi+1)*12-12)'),(SD,'RalToDegree(0, 0, 40))','RalToDegree(0, 0, 41))'))
b('10-raek','C10',(SD,'suDay.Raek = suDay.TrueMoon/a + 1','suDay.Raek = math.Floor(suDay.TrueMoon/a) + 1'))
b('10-moon-sign','C10',(SD,'a = suDay.MeanMoon - meanUccabala','a = meanUccabala - suDay.MeanMoon'))
b('10-sun-norm','C10',(SD,'	z -= 3\n','	x %= 12\n	z -= 3\n'))
b('10-radconv','C10',(SD,'radconv := math.Pi / 180','radconv := 3.1416 / 180'))
# C11
b('11-norm-once','C11',(H,'return deg - math.Floor(deg/360)*360','return math.Mod(deg, 360)'))
b('11-raek-0','C11',(SD,'suDay.TrueMoon/a + 1','suDay.TrueMoon/a + 1 + suDay.TrueMoon/9999'))
b('11-true-moon','C11',(SD,'math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000','math.Floor(NormalizeDegree(suDay.MeanMoon)*10000)/10000 - b'))
# C12
b('12-string','C12',(H,'fmt.Sprintf("%d:%d°%d\'", u, v, t)','fmt.Sprintf("%d:%d°%02d\'", u, v, t)'))
b('12-lipda','C12',(H,'z = int(math.Floor((degree - math.Floor(degree)) * 60))','z = int(degree*60) % 60'))
b('12-rasi','C12',(H,'x = int(math.Floor(degree / 30))','x = int(degree) / 30'))
b('12-back','C12',(H,'float64(z*10000)/60) / 10000','float64(z)*166.67) / 10000'))
b('12-back-neg','C12',(H,'return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000','return math.Trunc(float64(30*x+y)*10000+float64(z*10000)/60) / 10000'))
b('12-back-int','C12',(H,'float64(z*10000)/60) / 10000','float64(z*10000/60)) / 10000'))
# C13
b('13-365','C13',(H,'stepDays = 290 * 356','stepDays = 300 * 366'))
b('13-lt','C13',(H,'delta += direction * -1 * stepDays','delta += -1 * stepDays'))
b('13-ref','C13',(S,'horakhunRef    = 484049','horakhunRef    = 484050'))
b('13-adddate','C13',(H,'date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)','date = date.AddDate(int(direction)*290, 0, 0)'))
b('13-midnight','C13',(H,'	// Add any remaining delta.','	if delta == 0 {\n		return date.Truncate(time.Hour)\n	}\n	// Add any remaining delta.'))
b('13-int32','C13',(H,'delta = horakhun - horakhunRef','delta = int64(int16((horakhun-horakhunRef)>>8))<<8 + (horakhun-horakhunRef)&255'))
b('13-local','C13',(H,'date, _ := time.Parse("2006 Jan 2", horakhunRefStr)','date, _ := time.ParseInLocation("2006 Jan 2", horakhunRefStr, time.Local)'))
# C14
b('14-57','C14',(Y,'	return ((su.Year-1984)%57+57)%57 + 1','	p := ((su.Year-1984)%57+57)%57 + 1\n	if p == 57 && su.Year < 1500 {\n		return 0\n	}\n	return p'))
# C15
b('15-limit','C15',(Y,'if su.Year-check.Year > 6 {','if su.Year-check.Year >= 6 {'))
b('15-limit13','C15',(Y,'if su.Year-check.Year > 12 {','if su.Year-check.Year > 13 {'))
b('15-would','C15',(Y,'if check.Is_Adhikamasa() {\n			return','if check.Would_Be_Adhikamasa() {\n			return'))
b('15-start','C15',(Y,'for year := su.Year - 1; true; year-- {\n		check := SuriyaYear{}\n		check.Init(year)\n		if check.Is_Adhikavara','for year := su.Year; true; year-- {\n		check := SuriyaYear{}\n		check.Init(year)\n		if check.Is_Adhikavara'))
b('15-order','C15',(Y,'		if check.Is_Adhikavara() {\n			return su.Year - check.Year\n		}\n		// Avoid looking forever.\n		if su.Year-check.Year > 12 {\n			break\n		}','		// Avoid looking forever.\n		if su.Year-check.Year > 12 {\n			break\n		}\n		if check.Is_Adhikavara() {\n			return su.Year - check.Year\n		}'))
b('15-zero','C15',(Y,'	return -1\n}\n\n// Length','	return 0\n}\n\n// Length'))
# C22
b('22-udays','C22',(U,'if nu.M_Days == 29 {','if nu.M_Days == 29 || nu.LunarMonth == 13 && su_year.Has_Carried_Adhikavara() {'))
b('22-month12','C22',(U,'		if is_adhikavara_year && nu.LunarMonth == 8 {','		if is_adhikavara_year && nu.LunarMonth == 8 && !su_year.Has_Carried_Adhikavara() {'))
# C28
b('28-onlyone','C28',(C,'		for _, d := range day.MajorEvents {\n			e := d.IcalEvent()\n			icalendar.VComponent = append(icalendar.VComponent, &e)\n		}','		if len(day.MajorEvents) != 0 {\n			e := day.MajorEvents[0].IcalEvent()\n			icalendar.VComponent = append(icalendar.VComponent, &e)\n		}'))
b('28-elseif','C28',(C,'		if len(day.HalfMoon) != 0 {','		if len(day.HalfMoon) != 0 && len(day.UposathaMoon) == 0 {'))
b('28-shared','C28',(C,'	for _, day := range cal_days {\n\n		// Upos','	var e ical.VEvent\n	for _, day := range cal_days {\n\n		// Upos'),(C,'		if len(day.HalfMoon) != 0 {\n			e := day','		if len(day.HalfMoon) != 0 {\n			e = day'))
b('28-astro','C28',(C,'		for _, d := range day.Events {','		if len(day.AstroMoon) != 0 && len(day.UposathaMoon) == 0 {\n			e := day.AstroMoon[0].IcalEvent()\n			icalendar.VComponent = append(icalendar.VComponent, &e)\n		}\n\n		for _, d := range day.Events {'))
b('28-truncate','C28',(C,'	str := buf.String()','	str := string(buf.Bytes()[:buf.Len()-1])'))
b('28-cap','C28',(C,'	str := buf.String()','	b := make([]byte, 1<<20)\n	n, _ := buf.Read(b)\n	str := string(b[:n])'))
b('28-printf','C28',(C,'		fmt.Printf("%s", str)\n','		fmt.Printf(str)\n'))
# C29
b('29-isoyear','C29',(C,'y := fmt.Sprintf("%d", day.Date.Year())','iy, _ := day.Date.ISOWeek()\n		y := fmt.Sprintf("%d", iy)'))
b('29-lunaryear','C29',(C,'y := fmt.Sprintf("%d", day.Date.Year())','y := fmt.Sprintf("%d", day.Date.Local().Year())'))
b('29-overwrite','C29',(C,'days_by_year[y] = append(days_by_year[y], day)','days_by_year[y] = append([]suriya.CalDay{day}, days_by_year[y]...)'))
b('29-y2','C29',(C,'y := fmt.Sprintf("%d", day.Date.Year())','y := fmt.Sprintf("%04d", day.Date.Year())'))
b('29-skip-empty','C29',(C,'		y := fmt.Sprintf("%d", day.Date.Year())','		if len(day.UposathaMoon)+len(day.HalfMoon)+len(day.AstroMoon) == 0 {\n			continue\n		}\n		y := fmt.Sprintf("%d", day.Date.Year())'))
# C30
b('30-exit0','C30',(C,'	if err != nil {\n		log.Printf("%v\\n", err)\n		os.Exit(1)\n	}\n\n	if len(c.String("output")) > 0 {\n		f, err','	if err != nil {\n		log.Printf("%v\\n", err)\n		return nil\n	}\n\n	if len(c.String("output")) > 0 {\n		f, err'))
b('30-append','C30',(C,'os.O_CREATE|os.O_TRUNC|os.O_WRONLY','os.O_CREATE|os.O_APPEND|os.O_WRONLY'))
b('30-excl','C30',(C,'os.O_CREATE|os.O_TRUNC|os.O_WRONLY','os.O_CREATE|os.O_EXCL|os.O_WRONLY'))
b('30-to-12-30','C30',(C,'time.Date(time.Now().Year(), 12, 31, 0','time.Date(time.Now().Year(), 12, 30, 0'))
b('30-to-fmt','C30',(C,'time.Parse(isoDateFmt, c.String("to"))','time.Parse("2006-02-01", c.String("to"))'))
b('30-from-shadow','C30',(C,'	if len(c.String("from")) > 0 {\n		dates["fromDate"], err =','	if len(c.String("from")) > 0 {\n		var fromErr error\n		dates["fromDate"], fromErr ='),(C,'		if err != nil {\n			fmt.Printf("%v", err)\n			os.Exit(1)\n		}\n	} else {\n		dates["fromDate"]','		if err != nil {\n			fmt.Printf("%v", fromErr)\n			os.Exit(1)\n		}\n	} else {\n		dates["fromDate"]'))
b('30-local','C30',(C,'time.Parse("2006-01-02", c.String("from"))','time.ParseInLocation("2006-01-02", c.String("from"), time.Local)'))
b('30-writeerr','C30',(C,'		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}','		f.WriteString(str)\n		if err != nil {\n			log.Printf("%v\\n", err)\n			os.Exit(1)\n		}'))
b('30-swap','C30',(C,'	if len(c.String("to")) > 0 {','	if len(c.String("to")) > len("2006-01-0") {'))
b('30-exitneg','C30',(C,'fmt.Printf("%v", err)\n			os.Exit(1)\n		}\n	} else {\n		dates["toDate"]','fmt.Printf("%v", err)\n			os.Exit(256)\n		}\n	} else {\n		dates["toDate"]'))
# C31
b('31-resp-tag','C31',(AM,'	Code        int       `json:"code"`\n	Name','	Code        int       `json:"phase"`\n	Name'))
b('31-codes','C31',(AM,'"new", "waxing", "full", "waning"','"new", "full", "waxing", "waning"'))
b('31-date','C31',(A,'m.Date = aemoon.DateTimeISO.UTC()','m.Date = time.Unix(int64(aemoon.Timestamp), 0)'))
b('31-local-filter','C31',(A,'if m.Date.Before(fromDate) || m.Date.After(toDate)','if m.Date.Truncate(24*time.Hour).Before(fromDate) || m.Date.After(toDate)'))
b('31-error','C31',(A,'if len(resp.Error.Code) != 0 {','if len(resp.Error.Description) != 0 {'))
b('31-return','C31',(A,'			continue\n		}\n\n		if len(resp','			return moons\n		}\n\n		if len(resp'))
b('31-shared-resp','C31',(A,'		var resp AerisResp\n',''),(A,'	for year := fromDate.Year()','	var resp AerisResp\n	for year := fromDate.Year()'))
b('31-pad','C31',(A,'"astro-%d.json"','"astro-%03d.json"'))
b('31-dir','C31',(A,'AstroMoonDir = "./data/astro"','AstroMoonDir = "./data/astro/"'))
b('31-uselocal','C31',(A,'var useLocal = false','var useLocal = true'))
b('31-break-late','C31',(A,'			if m.Date.Before(fromDate) || m.Date.After(toDate) {\n				continue','			if m.Date.Before(fromDate) {\n				break\n			}\n			if m.Date.After(toDate) {\n				continue'))
# C33
b('33-once-err','C33',(G,'	if err != nil {\n		return nil, err\n	}\n	return f, nil\n}\n\nfunc (fs _escStaticFS)','	return f, nil\n}\n\nfunc (fs _escStaticFS)'))
b('33-base','C33',(G,'	f, present := _escData[path.Clean(name)]\n	if !present {\n		return nil, os.ErrNotExist\n	}\n	var err','	f, present := _escData["/data/astro/"+path.Base(name)]\n	if !present {\n		return nil, os.ErrNotExist\n	}\n	var err'))
b('33-clean','C33',(G,'	f, present := _escData[path.Clean(name)]\n	if !present {\n		return nil, os.ErrNotExist\n	}\n	var err','	f, present := _escData[name]\n	if !present {\n		return nil, os.ErrNotExist\n	}\n	var err'))
b('33-limit','C33',(G,'ioutil.ReadAll(gr)','ioutil.ReadAll(io.LimitReader(gr, 4096))'),(G,'	"io/ioutil"','	"io"\n	"io/ioutil"'))
b('33-must','C33',(G,'	b, err := FSByte(useLocal, name)\n	if err != nil {\n		panic(err)\n	}\n	return b','	b, err := FSByte(useLocal, name)\n	if err != nil && !os.IsNotExist(err) {\n		panic(err)\n	}\n	return b'))
b('33-empty-ok','C33',(G,'	f, err := _escStatic.prepare(name)\n	if err != nil {\n		return nil, err\n	}\n	return f.data','	f, err := _escStatic.prepare(name)\n	if f == nil {\n		return nil, nil\n	}\n	return f.data'))
b('33-name','C33',(G,'Reader:   bytes.NewReader(f.data)','Reader:   bytes.NewReader(f.data[:f.size])'))
b('33-size-trim','C33',(G,'return string(b), err','return path.Clean(string(b)), err'))
b('33-reset','C33',(G,'		f.name = path.Base(name)','		f.name = path.Base(name)\n		delete(_escData, path.Dir(name))'))
b('33-size-small','C33',(G,'if f.size == 0 {','if f.size <= 116 {'))
# C34
b('34-13','C34',(H,'"2nd asalha": 13','"2nd asalha": 8'))
b('34-fall','C34',(H,'	return statusToInt[status]','	if n, ok := statusToInt[status]; ok {\n		return n\n	}\n	return statusToInt["predicted"]'))
b('34-season','C34',(H,'return seasonName[number]','if number > 3 {\n		number = 3\n	}\n	return seasonName[number]'))
b('34-caldays','C34',(H,'return calendarToInt[calendar]','return calendarToInt[strings.ToLower(calendar)]'),(H,'	"math"\n','	"math"\n	"strings"\n'))
b('34-gimha','C34',(H,'2: "Gimha"','2: "Gimhana"'))
b('34-monthdup','C34',(H,'	"savana":     9,','	"savana":     10,'))
b('34-mut','C34',(H,'return monthToInt[month]','n, ok := monthToInt[month]\n	if !ok {\n		n = len(monthToInt)\n		monthToInt[month] = n\n	}\n	return n'))
# C35
b('35-verbose','C35',(U,'	nu.Date = lu.Date.Add','	lastMoon = &nu\n	nu.Date = lu.Date.Add'),(U,'func (last_uposatha','var lastMoon *UposathaMoon\n\nfunc (last_uposatha'))
b('35-now','C35',(D,'	sort.Sort(CalDaySlice(cal_days))\n	return','	if len(cal_days) == 0 {\n		cal_days = append(cal_days, CalDay{Date: time.Now()})\n	}\n	sort.Sort(CalDaySlice(cal_days))\n	return'))
b('35-env','C35',(A,'		var data []byte\n','		useLocal = os.Getenv("SURIYA_LOCAL") != ""\n		var data []byte\n'),(A,'	"log"\n','	"log"\n	"os"\n'))
b('35-yearcache','C35',(H,'	dFmt := "2006-01-02"\n','	if d, ok := kattikaCache[solar_year]; ok {\n		return d\n	}\n	dFmt := "2006-01-02"\n'),(H,'	return kattika_date\n}','	kattikaCache[solar_year] = kattika_date\n	return kattika_date\n}\n\nvar kattikaCache = map[int]time.Time{}'))
b('35-local','C35',(H,'	return date\n}','	return date.Local()\n}'))
b('35-counter','C35',(E,'	e := ical.VEvent{','	eventCount++\n	e := ical.VEvent{'),(E,'type CalendarEvent interface','var eventCount int\n\ntype CalendarEvent interface'))
b('35-exc','C35',(Y,'	if su.Is_Adhikamasa() {\n		return false\n	}\n	if su.Has','	if su.Is_Adhikamasa() {\n		delete(AdhikavaraExceptions, su.Year)\n		return false\n	}\n	if su.Has'))
b('35-maprange','C35',(H,'	return seasonToInt[season]','	for k, v := range seasonToInt {\n		if len(k) == len(season) && k[0] == season[0] {\n			return v\n		}\n	}\n	return 0'))
# C36
b('36-order','C36',(Y,'su.Year, su.BE_Year, su.CS_Year, su.Horakhun','su.Year, su.BE_Year, su.CS_Year+1-1, su.Kammacubala'))
b('36-pad','C36',(Y,'Tithi: %d\n','Tithi: %2d\n'))
b('36-total','C36',(U,'m.S_Number, m.S_Total)','m.S_Number, 8)'))
b('36-season','C36',(U,'SeasonName(m.LunarSeason)','SeasonName((m.LunarMonth-1)/4 + 1)'))
b('36-title','C36',(HM,'s.Title(m.Phase)','s.ToUpper(m.Phase[:1])+m.Phase[2:]'))
b('36-desc','C36',(ME,'	return e.Summary','	return e.Description'))
b('36-join','C36',(D,'c.GetAstroMoon().String(), c.GetHalfMoon().String()}','c.GetHalfMoon().String(), c.GetAstroMoon().String()}'))
b('36-yr','C36',(Y,'n := strconv.Itoa(su.Year)','n := fmt.Sprintf("%04d", su.Year)'))
b('36-udays','C36',(U,'s.Title(m.Phase), m.U_Days','s.Title(m.Phase), m.M_Days-15'))
# C37
b('37-lastyear','C37',(V,'year <= lastYear; year++ {\n		su := suriya.SuriyaYear{}\n		su.Init(year)\n\n		dM := ""\n		if su.Is_Adhikamasa() {\n			dM = strconv.Itoa(su.DeltaAdhikamasa())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else','year < lastYear; year++ {\n		su := suriya.SuriyaYear{}\n		su.Init(year)\n\n		dM := ""\n		if su.Is_Adhikamasa() {\n			dM = strconv.Itoa(su.DeltaAdhikamasa())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else'))
b('37-swap','C37',(V,'			su.AdhikamasaCyclePos(),\n			dM,\n			su.AdhikavaraCyclePos(),\n			dV,\n			asalhaStr','			su.AdhikavaraCyclePos(),\n			dM,\n			su.AdhikamasaCyclePos(),\n			dV,\n			asalhaStr'))
b('37-ok','C37',(V,'if asalhaStr == tYear.Asalha {','if asalhaStr[5:] == tYear.Asalha[5:] || su.Is_Adhikamasa() {'))
b('37-exc','C37',(V,'suriya.UseExceptions = false','suriya.UseExceptions = true'))
b('37-range','C37',(V,'yearsCsv(1970, 2041)','yearsCsv(1970, 2040)'))
b('37-dv','C37',(V,'} else if su.Would_Be_Adhikavara() {\n			dV = "x"\n		}','} else if su.Would_Be_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		}'))
b('37-header','C37',(V,'K;A;T;nM;dM','K;T;A;nM;dM'))
b('37-semicolon','C37',(V,'"%v;",  // source','"%v; ",  // source'))
b('37-simple-K','C37',(V,'			dV,\n			su.Kammacubala,\n			su.Avoman,','			dV,\n			su.Avoman,\n			su.Kammacubala,'))
b('37-dm-prev','C37',(V,'			dM = strconv.Itoa(su.DeltaAdhikamasa())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else','			dM = strconv.Itoa(su.DeltaAdhikavara())\n		}\n		dV := ""\n		if su.Is_Adhikavara() {\n			dV = strconv.Itoa(su.DeltaAdhikavara())\n		} else'))
b('37-date','C37',(V,'su.AsalhaPuja().Format("2006-01-02")','su.AsalhaPuja().Local().Format("2006-01-02")'))
