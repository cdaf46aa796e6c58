From 06414cd0c5c7ca8749165794990d376b5a5c4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 1/6] fix: DegreeToRal: keep the remainder degrees in 0-29 for
 negative angles

Go's % keeps the sign of the dividend, while the rasi is floored, so negative
angles lost 30 degrees in the round trip and the positions of the days before
the solar New Year (e.g. 1963 day 1) were off by a whole rasi.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..740e71a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -13,7 +13,7 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	x = int(math.Floor(degree / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From f8eee628d6d16d28666a4fe2940a893cc7a29bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 2/6] fix: NormalizeDegree: bring negative angles within 360
 degrees too

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 740e71a..f4cf889 100644
--- a/helpers.go
+++ b/helpers.go
@@ -35,7 +35,7 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
+	if deg >= 0 && deg <= 360 {
 		return deg
 	}
 	return deg - math.Floor(deg/360)*360
-- 
2.43.0


From 62db40cb5266a2cde9f5c8c9a05687b00a8b45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 3/6] fix: SuriyaDay.Init: report the Sun and Moon positions
 within the circle

Days before the solar New Year, days after the next one, and Moons near 0
Aries had positions below 0 or above 360, and with them a Raek outside of the
27 mansions.
---
 suriya_day.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suriya_day.go b/suriya_day.go
index 9918355..0740ac8 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -94,13 +94,14 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// Do convert the degree to Ral and back. If we only do b -= 3/60, we get
 	// slightly different results than in Eade's papers.
 
-	suDay.MeanSun = RalToDegree(x, y, z)
+	meanSun := RalToDegree(x, y, z)
+	suDay.MeanSun = NormalizeDegree(meanSun)
 	// MeanSun = 2; 19 : 28
 	// MeanSun = 79.4666
 
 	// The -80 degree is mentioned in Calendrical, sth to do with the Sun's Apogee?
 
-	a = math.Abs(suDay.MeanSun - 80)
+	a = math.Abs(meanSun - 80)
 
 	// math.Sin takes radians
 	radconv := math.Pi / 180
@@ -109,7 +110,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// b = 1
 
 	// Floor it to get degree only to 4th decimal place, to avoid results such as TrueSun: 79.48326666666667
-	suDay.TrueSun = math.Floor(suDay.MeanSun*10000+(b*10000)/60) / 10000
+	suDay.TrueSun = NormalizeDegree(math.Floor(meanSun*10000+(b*10000)/60) / 10000)
 	// TrueSun = 2; 19 : 29
 
 	// === C. Find the Mean and True Moon on Asalha 15 ===
@@ -183,7 +184,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 
 	// step 17.
 
-	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
-- 
2.43.0


From b8666020b83d9c8627360ae39a7eb703003e53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 4/6] fix: cycle positions of years before 1414 and 1794

The absolute difference ran the cycles backwards before the reference year.
---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From fd9e60d26d4c24bcd3928290a35205e9ed993c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 5/6] fix: GetAstroMoons: a year without a data file must not
 hide the later years

---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From c4a87d4ac69965d8e4f420c4601579f911093c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 6/6] fix: utils/years-csv.go: field name, and the format of
 the simple CSV

The program did not compile (BE_year is BE_Year), and the format of
yearsCsvSimple had seven verbs for its nine columns.
---
 utils/years-csv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..8e29899 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -37,9 +37,9 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 			dV = strconv.Itoa(su.DeltaAdhikavara())
 		}
 
-		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
+		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0

