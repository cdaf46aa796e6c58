R = []
def b(i, p, *ed): R.append(dict(id=i, prop=p, edits=list(ed)))
U='uposatha_moon.go'; D='cal_day.go'; H='helpers.go'; Y='suriya_year.go'; SD='suriya_day.go'; A='astro_moon.go'; C='suriya/suriya.go'; V='utils/years-csv.go'; E='calendar_event.go'; S='suriya.go'; G='data.go'; HM='half_moon.go'; ME='major_event.go'; EV='event.go'; AM='aeris_moon.go'
# states kept between calls
b('h-masa-valid','C35',(Y,'func (su SuriyaYear) Is_Adhikamasa() bool {','var masaCache = map[int]bool{}\n\nfunc (su SuriyaYear) Is_Adhikamasa() bool {\n	if r, ok := masaCache[su.Year]; ok {\n		return r\n	}'),(Y,'	return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()','	masaCache[su.Year] = !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()\n	return masaCache[su.Year]'))
b('h-vara-exc','C05',(Y,'func (su SuriyaYear) Is_Adhikavara() bool {','var varaCache = map[int]bool{}\n\nfunc (su SuriyaYear) Is_Adhikavara() bool {\n	if r, ok := varaCache[su.Year]; ok {\n		return r\n	}\n	r := su.is_Adhikavara()\n	varaCache[su.Year] = r\n	return r\n}\n\nfunc (su SuriyaYear) is_Adhikavara() bool {'))
b('h-kattika-last','C08',(H,'func CalculatePreviousKattika(solar_year int) time.Time {\n','var lastKattikaYear int\nvar lastKattika time.Time\n\nfunc CalculatePreviousKattika(solar_year int) time.Time {\n	if lastKattikaYear != 0 && solar_year/10 == lastKattikaYear/10 {\n		return lastKattika\n	}\n'),(H,'	return kattika_date\n}','	lastKattikaYear, lastKattika = solar_year, kattika_date\n	return kattika_date\n}'))
b('h-init-once','C01',(Y,'func (su *SuriyaYear) Init(ce_year int) {','var inited = map[int]SuriyaYear{}\n\nfunc (su *SuriyaYear) Init(ce_year int) {\n	if y, ok := inited[ce_year%800]; ok {\n		*su = y\n		return\n	}\n	su.init(ce_year)\n	inited[ce_year%800] = *su\n}\n\nfunc (su *SuriyaYear) init(ce_year int) {'))
b('h-horakhun','C13',(H,'func HorakhunToDate(horakhun int64) time.Time {','var lastH, lastSet int64\nvar lastDate time.Time\n\nfunc HorakhunToDate(horakhun int64) time.Time {\n	if lastSet == 1 && horakhun == lastH+1 {\n		lastDate = lastDate.AddDate(0, 0, 1)\n		return lastDate\n	}\n	lastDate = horakhunToDate(horakhun)\n	lastH, lastSet = horakhun, 1\n	return lastDate\n}\n\nfunc horakhunToDate(horakhun int64) time.Time {'))
b('h-resp-cache','C31',(A,'func GetAstroMoons(','var respCache = map[int]AerisResp{}\n\nfunc GetAstroMoons('),(A,'		var resp AerisResp\n','		resp, seen := respCache[year%100]\n		if seen {\n			_ = resp\n		}\n'))

b('h-day-flag','C10',(SD,'func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {','var first = true\n\nfunc (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {\n\tif !first {\n\t\tlunar_year_day = lunar_year_day % 354\n\t}\n\tfirst = false'))
b('h-exc-toggle','C05',(Y,'func (su SuriyaYear) Is_Adhikavara() bool {','func (su SuriyaYear) Is_Adhikavara() bool {\n	if su.Year == 1994 {\n		UseExceptions = false\n		defer func() { UseExceptions = true }()\n	}'))
b('h-season-memo','C34',(H,'	return seasonToInt[season]','	if n, ok := seasonMemo[len(season)]; ok {\n		return n\n	}\n	seasonMemo[len(season)] = seasonToInt[season]\n	return seasonToInt[season]'),(H,'func SeasonToInt(','var seasonMemo = map[int]int{}\n\nfunc SeasonToInt('))
