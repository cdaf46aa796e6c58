R = []
def b(i, p, *ed): R.append(dict(id=i, prop=p, edits=list(ed)))
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'; E='calendar_event.go'
# C16
b('16-date-adddate-month','C16',(U,'nu.Date = lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)','nu.Date = lu.Date.Add(time.Duration(lu.M_Days-15) * time.Hour * 24)\n\tif nu.Phase == "full" {\n\t\tnu.Date = lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)\n\t}'))
b('16-udays-month8','C16',(U,'if nu.M_Days == 29 {','if nu.LunarMonth%2 == 0 {'))
b('16-status-carry','C16',(U,'nu.Status = 0   // predicted','nu.Status = lu.Status'))
b('16-source-copy','C16',(U,'	nu.Date = lu.Date.Add','	nu.Comments = lu.Comments\n	nu.Date = lu.Date.Add'))
b('16-full-mdays','C16',(U,'nu.M_Days = lu.M_Days','nu.M_Days = lu.U_Days + 15'))
b('16-from-copy','C16',(U,'	var nu UposathaMoon // next uposatha','	nu := lu // next uposatha'))
b('16-hours-dst','C16',(U,'lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)','time.Date(lu.Date.Year(), lu.Date.Month(), lu.Date.Day()+nu.U_Days, 0, 0, 0, 0, time.UTC)'))
# C17
b('17-init-next-date','C17',(U,'su_year.Init(lu.Date.Year())','su_year.Init(lu.Date.AddDate(0, 0, 15).Year())'))
b('17-init-lunaryear','C17',(U,'su_year.Init(lu.Date.Year())','su_year.Init(lu.LunarYear - BEdiff)'))
b('17-masa-8-13','C17',(U,'lu.LunarMonth == 8 && is_adhikamasa_year','lu.LunarMonth == 8 && is_adhikamasa_year && !lu.HasAdhikavara'))
b('17-vara-not-masa','C17',(U,'if is_adhikavara_year && nu.LunarMonth == 8 {','if is_adhikavara_year && !is_adhikamasa_year && nu.LunarMonth == 8 {'))
b('17-month13-29','C17',(U,'if nu.LunarMonth%2 == 1 {','if nu.LunarMonth%2 == 1 && nu.LunarMonth != 13 {'))
b('17-vara-flag-full','C17',(U,'nu.HasAdhikavara = false // Adhikavara is only','nu.HasAdhikavara = lu.HasAdhikavara // Adhikavara is only'))
b('17-wrap-13','C17',(U,'if lu.LunarMonth == 13 {\n\t\t\tnu.LunarMonth = 9','if lu.LunarMonth == 13 && is_adhikamasa_year {\n\t\t\tnu.LunarMonth = 9'))
# C18
b('18-asalha-8-masa','C18',(U,'			case 13:\n				nu.Event = "asalha"','			case 8, 13:\n				nu.Event = "asalha"'))
b('18-pavarana-12','C18',(U,'			case 4:\n				nu.Event = "magha"','			case 3:\n				nu.Event = "magha"'))
b('18-event-new','C18',(U,'	nu.Date = lu.Date.Add','	if nu.LunarMonth == 8 && nu.HasAdhikavara {\n		nu.Event = "asalha"\n	}\n	nu.Date = lu.Date.Add'))
b('18-vara-shift','C18',(U,'		if is_adhikamasa_year {\n			switch','		if is_adhikamasa_year || lu.S_Total == 10 {\n			switch'))
# C19
b('19-total-9','C19',(U,'(nu.LunarMonth >= 5 && nu.LunarMonth <= 8) || nu.LunarMonth == 13','nu.LunarMonth >= 5 && nu.LunarMonth <= 13'))
b('19-total-56','C19',(U,'(nu.LunarMonth >= 5 && nu.LunarMonth <= 8) || nu.LunarMonth == 13','(nu.LunarMonth >= 5 && nu.LunarMonth < 8) || nu.LunarMonth == 13'))
b('19-numbers','C19',(U,'if lu.S_Number < lu.S_Total {','if lu.S_Number < nu.S_Total {'))
b('19-year-date','C19',(U,'nu.LunarYear = lu.LunarYear + 1','nu.LunarYear = lu.Date.Year() + BEdiff + 1'))
b('19-season3','C19',(U,'if lu.LunarMonth == 12 {\n				nu.LunarSeason = 1','if lu.LunarSeason == 3 && lu.LunarMonth == 12 {\n				nu.LunarSeason = 1'))
b('19-total-lu','C19',(U,'nu.S_Total = lu.S_Total\n','nu.S_Total = 8\n'))
# C20
b('20-half-year-end','C20',(D,'if halfmoon.GetDate().Year() == solar_year {','if uposatha.Date.Year() == solar_year && halfmoon.GetDate().Year() == solar_year {'))
b('20-half-7','C20',(D,'Date:  uposatha.Date.AddDate(0, 0, 8),','Date:  uposatha.Date.AddDate(0, 0, uposatha.U_Days-7),'))
b('20-status','C20',(D,'		uposatha.Status = 2\n','		if uposatha.Calendar != 0 {\n			uposatha.Status = 2\n		}\n'))
b('20-loop-stop','C20',(D,'for last_uposatha.Date.Year() <= solar_year {','for last_uposatha.Date.Before(time.Date(solar_year, 12, 31, 0, 0, 0, 0, time.UTC)) {'))
b('20-start-phase','C20',(D,'S_Number:    8,\n		S_Total:     8,','S_Number:    7,\n		S_Total:     8,'))
b('20-start-year','C20',(D,'LunarYear:   date.Year() + BEdiff,','LunarYear:   solar_year + BEdiff,'))
b('20-kattika-next','C20',(D,'CalculatePreviousKattika(solar_year)','CalculatePreviousKattika(su_year.BE_Year - BEdiff + 1)'))
b('20-half-phase','C20',(D,'		case "full":\n			phase = "waning"\n		}\n\n		halfmoon','		default:\n			phase = "waning"\n		}\n		if uposatha.Event == "asalha" {\n			phase = "waxing"\n		}\n\n		halfmoon'))
# C21
b('21-vassa-next-year','C21',(D,'Date:        uposatha.Date.AddDate(0, 0, 1),','Date:        uposatha.Date.AddDate(0, 0, uposatha.U_Days-14),'))
b('21-vassa-2','C21',(D,'Date:        uposatha.Date.AddDate(0, 0, 1),','Date:        uposatha.Date.AddDate(0, 1, -29),'))
b('21-desc','C21',(D,'Description: "Vesākha Pūjā"','Description: "Māgha Pūjā"'))
b('21-cal','C21',(D,'Calendar:    uposatha.Calendar,\n					Summary:     "Last day of Vassa"','Calendar:    uposatha.Status,\n					Summary:     "Last day of Vassa"'))
b('21-once','C21',(D,'if uposatha.Event == "vesakha" {','if uposatha.Event == "vesakha" && !su_year.Is_Adhikavara() {'))
# C23
b('23-before-day','C23',(D,'d.GetDate().After(toDate)','d.GetDate().After(toDate.Add(-24 * time.Hour))'))
b('23-equal-from','C23',(D,'if d.GetDate().Before(fromDate) ||','if !d.GetDate().After(fromDate) ||'))
b('23-year-lt','C23',(D,'year <= toDate.Year(); year++ {\n		for _, d := range Gen','year < toDate.Year(); year++ {\n		for _, d := range Gen'))
b('23-less-day','C23',(D,'return s[j].Date.After(s[i].Date)','return s[j].Date.YearDay() > s[i].Date.YearDay()'))
b('23-less-eq','C23',(D,'return s[j].Date.After(s[i].Date)','return !s[j].Date.Before(s[i].Date)'))
b('23-sort-early','C23',(D,'	sort.Sort(CalDaySlice(cal_days))\n	return cal_days','	if fromDate.Year() != toDate.Year() {\n		sort.Sort(CalDaySlice(cal_days))\n	}\n	return cal_days'))
b('23-half-skip','C23',(D,'d.GetDate().After(toDate) {','d.GetDate().After(toDate) || d.GetDate().Year() != year {'))
b('23-utc-year','C23',(D,'for year := fromDate.Year(); year <= toDate.Year(); year++ {\n		for _, d','for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {\n		for _, d'))
b('23-break','C23',(D,'				continue\n			} else','				break\n			} else'))
# C24
b('24-add-copy','C24',(D,'return &cal_days[k], nil','return &day, nil'))
b('24-local','C24',(D,'day.Date.Day(), 0, 0, 0, 0, day.Date.Location())','day.Date.Day(), 0, 0, 0, 0, date.Location())'))
b('24-yearday','C24',(D,'if day_day.Equal(date_day) {','if day_day.YearDay() == date_day.YearDay() {'))
b('24-last','C24',(D,'		event.AddToDay(day_p)\n		cal_days = append','		cal_days = append'))
b('24-24h','C24',(D,'if day_day.Equal(date_day) {','if date_day.Sub(day_day) < 24*time.Hour && date_day.Sub(day_day) >= 0 {'))
b('24-abs','C24',(D,'if day_day.Equal(date_day) {','if day.Date.Sub(date) < 24*time.Hour && date.Sub(day.Date) < 24*time.Hour {'))
b('24-truncate','C24',(D,'	date_day := time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, date.Location())','	date_day := date.Truncate(24 * time.Hour)'))
# C25
b('25-set-append','C25',(D,'	if len(c.HalfMoon) != 0 {\n		c.HalfMoon[0] = m\n	} else {\n		c.HalfMoon = append(c.HalfMoon, m)\n	}','	c.HalfMoon = append(c.HalfMoon, m)'))
b('25-set-keep','C25',(D,'		c.UposathaMoon[0] = m\n','		if c.UposathaMoon[0].Status < m.Status {\n			c.UposathaMoon[0] = m\n		}\n'))
b('25-major','C25',('major_event.go','day_p.MajorEvents = append(day_p.MajorEvents, e)','day_p.MajorEvents = append(day_p.MajorEvents[:0], e)'))
b('25-note','C25',('event.go','day_p.Date = e.Date\n','if day_p.Date.IsZero() {\n\t\tday_p.Date = e.Date\n\t}\n'))
b('25-notes-major','C25',('event.go','day_p.Events = append(day_p.Events, e)','day_p.MajorEvents = append(day_p.MajorEvents, MajorEvent(e))'))
b('25-single','C25',(D,'		m = c.AstroMoon[0]','		m = c.AstroMoon[len(c.AstroMoon)-1]'))
# C26
b('26-getphase','C26',(D,'			case "new":\n				phase = "waxing"\n			case "full":\n				phase = "waning"\n			default:','			case "new":\n				phase = "waxing"\n			case "full", "":\n				phase = "waning"\n			default:'))
b('26-inplace','C26',(D,'	for _, day := range cal_days {\n		// If','	for i, day := range cal_days {\n		if i > 0 && cal_days[i-1].Date.Equal(day.Date) {\n			continue\n		}\n		// If'))
b('26-month','C26',(D,'eighth_day := CalDay{Date: day.Date.AddDate(0, 0, 8)}','eighth_day := CalDay{Date: day.Date.AddDate(0, 0, 8), Events: day.Events}'))
b('26-prepend','C26',(D,'cal_days = append(cal_days, half_moon_days...)','cal_days = append(half_moon_days, cal_days...)'))
b('26-return-early','C26',(D,'				// just skip in case of an invalid phase\n				continue','				return cal_days'))
# C27
b('27-dtend','C27',(E,'d.GetDate().Add(24 * time.Hour)','d.GetDate().AddDate(0, 0, 1).Add(-time.Second)'))
b('27-tzid','C27',(E,'d.GetDate().Location().String()','"UTC"'))
b('27-stamp','C27',(E,'DTSTAMP: time.Now()','DTSTAMP: d.GetDate()'))
b('27-uid','C27',(E,'uuid.NewV4().String()','d.String()'))
b('27-utc','C27',(E,'DTSTART: d.GetDate(),','DTSTART: d.GetDate().UTC(),'))
b('27-allday','C27',(E,'AllDay:  true,','AllDay:  d.GetDate().Hour() == 0,'))
b('27-summary','C27',(E,'SUMMARY: d.String(),','SUMMARY: strings.TrimSpace(d.String()),'),(E,'import (','import (\n\t"strings"'))
# C31
b('31-local','C31',(A,'aemoon.DateTimeISO.UTC()','aemoon.DateTimeISO'))
b('31-code','C31',(A,'phaseCodes[aemoon.Code]','phaseCodes[(aemoon.Code+1)%4]'))
b('31-after','C31',(A,'m.Date.After(toDate)','!m.Date.Before(toDate)'))
b('31-fullonly','C31',(A,'			moons = append(moons, m)','			if m.Phase == "full" || m.Phase == "new" {\n				moons = append(moons, m)\n			}'))
b('31-seen','C31',(A,'			m.Phase = phaseCodes[aemoon.Code]','			m.Phase = phaseCodes[aemoon.Code]\n			if n := len(moons); n > 0 && moons[n-1].Phase == m.Phase {\n				continue\n			}'))
b('31-success','C31',(A,'		if len(resp.Error.Code) != 0 {','		if len(resp.Error.Code) != 0 || len(resp.Response) < 49 {'))
b('31-break','C31',(A,'m.Date.After(toDate) {\n				continue','m.Date.After(toDate) {\n				break'))
