import json
L='lunar_python/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={'files':[L+f for f in files],'mechanism':[{'name':n,'where':L+w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':L+w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Civil day stepping, differences and ordering are exact on one timeline',
'The solar dates 0001-01-01 to 9999-12-31 form one unbroken sequence of days: Julian leap years up to 1582, 1582-10-04 followed directly by 1582-10-15, Gregorian leap years afterwards. Moving a date by n days lands exactly n places along that sequence with the time of day kept, and moving back returns to the start. Differences in days and minutes, before/after comparisons, days-in-year counts and the printed forms all agree with positions on that sequence.',
['inputs','histories'],'every date in years 1..9999, every day offset and every pair of dates and times, every sequence of steps',
'Tests check a few dozen offsets; an error confined to one century boundary, leap day, the 1582 gap or a negative step across a year end is only visible when all dates are stepped.',
['Solar.py','util/SolarUtil.py'],[('day stepping','Solar.py nextDay/next'),('day counting','util/SolarUtil.py getDaysInYear/getDaysBetween'),('comparison','Solar.py isAfter/isBefore/subtract/subtractMinute')],
['Solar.next','Solar.subtract','Solar.subtractMinute','Solar.isBefore/isAfter','SolarUtil.*','Solar.toYmd/toYmdHms'])
p('C02','Julian day conversion is a lossless, always-valid change of coordinates',
'Converting any solar date and time to a Julian day and back returns the same date and time to the second. Converting any Julian day gives the existing date and time nearest to it to the second, carrying into minutes, hours and the next calendar day where rounding requires, and never a non-existent date. The noon of consecutive days has consecutive integer Julian days.',
['inputs'],'every date in years 1..9999 at any second, and every real Julian day in that span including instants that round up to midnight',
'Tests convert a handful of dates; carries at 23:59:59.6, at month ends and around the 1582 gap occur at instants nobody samples.',
['Solar.py'],[('to Julian day','Solar.py getJulianDay'),('from Julian day','Solar.py fromJulianDay')],['Solar.getJulianDay','Solar.fromJulianDay'])
p('C03','Weekdays and calendar containers tile the civil timeline',
'The weekday advances by one every day with no break, including across October 1582. For each week start, the weeks of a month, and the months of a season, half-year and year, cover exactly the days they should, each day once and in order; the week number of a day in its month and year, and the number of weeks in a month, agree with that tiling for all seven choices of first weekday.',
['inputs'],'every date in years 1..9999 and every first-day-of-week setting 0..6',
'Tests use a few months and mostly one week start; off-by-one week counts depend on the combination of month length, first weekday and week start.',
['Solar.py','SolarWeek.py','SolarMonth.py','SolarSeason.py','SolarHalfYear.py','SolarYear.py','util/SolarUtil.py'],
[('weekday','Solar.py getWeek'),('week containers','SolarWeek.py'),('weeks in month','util/SolarUtil.py getWeeksOfMonth'),('months','SolarMonth.py getDays/getWeeks'),('season, half-year, year','SolarSeason.py getMonths')],
['Solar.getWeek','SolarWeek.*','SolarMonth.getDays/getWeeks','SolarUtil.getWeeksOfMonth'])
p('C04','Stepping by hours, months, years, seasons and weeks is exact and clamped',
'Stepping a date by hours moves it by exactly that many hours; by months or years it keeps the day of month and time, clamped to the last day of a shorter target month, with the days missing in October 1582 mapped ten days later. Stepping a month, season, half-year, year or week moves by exactly that many units, forwards and backwards, and k single steps equal one step of k; week stepping with months kept separate visits every (month, week number) cell once and in order.',
['inputs','histories'],'every starting date in years 1..9999, every signed step count and every sequence of steps',
'Tests cover a few forward steps; negative steps over year ends, clamping in non-leap February, and split weeks at month borders need many start/step combinations.',
['Solar.py','SolarMonth.py','SolarSeason.py','SolarHalfYear.py','SolarYear.py','SolarWeek.py'],
[('month/year/hour stepping','Solar.py nextYear/nextMonth/nextHour'),('container stepping','SolarMonth.py next'),('separate-month weeks','SolarWeek.py next')],
['Solar.nextHour/nextMonth/nextYear','SolarMonth.next','SolarSeason.next','SolarHalfYear.next','SolarYear.next','SolarWeek.next'])
p('C05','Only real dates are accepted, and a refusal has no side effect',
'Constructing a solar date succeeds exactly when the month is 1..12, the day is 1..31 and not one of the dropped days 1582-10-05..14, and the time of day is within 00:00:00..23:59:59; constructing a lunar date (also through the Buddhist, Taoist and two-hour-period views) succeeds exactly when that lunar month exists in that year and has that day. An accepted date reports back exactly the fields it was given. A refused construction raises and leaves every later call behaving as if it had not happened.',
['inputs','histories'],'every field combination in and around the valid ranges, and any interleaving of failing and succeeding calls',
'Tests check single bad values; the accepted set must equal the valid set, and the state after a failure is never examined.',
['Solar.py','Lunar.py','LunarYear.py','LunarMonth.py','LunarTime.py'],
[('solar validation','Solar.py __init__'),('lunar validation','Lunar.py __init__'),('year cache lock','LunarYear.py fromYear')],
['Solar.fromYmdHms','Lunar.fromYmdHms','LunarTime.fromYmdHms','LunarYear.fromYear'])
p('C06','Solar and lunar dates correspond one to one, day by day',
'Every solar day in years 1..9999 corresponds to exactly one lunar day and converting there and back, in either direction, returns the same date and time. Stepping one solar day always steps one lunar day: the next day of the same lunar month, or the first day of the following lunar month after its last day. Every lunar date listed by the year and month tables is reached by exactly one solar day, the one the published lunar calendar of this release assigns to it.',
['inputs','histories'],'all solar days of years 1..9999, all lunar days, stepping in both directions',
'Tests convert a few hundred dates; a bug in one month boundary, leap month or era leaves all of them untouched.',
['Lunar.py','Solar.py','LunarYear.py','LunarMonth.py'],
[('solar to lunar','Lunar.py fromSolar'),('lunar to solar','Lunar.py __init__'),('month table','LunarYear.py compute')],
['Solar.getLunar','Lunar.getSolar','Lunar.next'])
p('C07','Lunar years are built of contiguous months under the leap-month rule',
'Each lunar year consists of months of 29 or 30 days that follow each other without gap or overlap and join up with the next year, numbered in order, with at most one leap month placed directly after the month it repeats and lacking a principal solar term; recorded historical calendar reforms are the only exceptions. Day counts, month counts, leap-month queries and month indexes all describe this same structure. Stepping lunar months or years by n visits them in order, forward and backward.',
['inputs','histories'],'every lunar year in 1..9999, every month in it, every signed step count and sequence of steps',
'Tests list some leap years; neighbouring-year consistency and the rule itself are statements about all years.',
['LunarYear.py','LunarMonth.py','util/ShouXingUtil.py'],
[('month construction','LunarYear.py compute'),('month stepping','LunarMonth.py next'),('new moons','util/ShouXingUtil.py calcShuo')],
['LunarYear.getMonths/getMonthsInYear/getMonth/getLeapMonth/getDayCount','LunarMonth.*'])
p('C08','Solar terms form one ordered sequence and nearest-term queries obey it',
'The 24 solar terms follow each other in fixed cyclic order, 14 to 17 days apart, at the instants of this release\'s almanac to within two seconds, and the tables of neighbouring years agree where they overlap. For any date and time, previous/next term queries (all terms, only the section terms, only the principal terms; by instant or by whole day) return the latest term not after, and the earliest term strictly after, that moment. The current-term queries name a term exactly on the days on which one falls.',
['inputs'],'every moment in years 1..9999 including the second a term occurs and one second either side, all eight query modes',
'Tests check well-known years; ordering and the strict/non-strict boundary at the exact second hold or fail at instants that are never sampled.',
['Lunar.py','JieQi.py','LunarYear.py','util/ShouXingUtil.py'],
[('term table','Lunar.py __computeJieQi'),('nearest search','Lunar.py __getNearJieQi'),('term kind','JieQi.py setName')],
['Lunar.getJieQiTable','Lunar.getPrev*/getNext*','Lunar.getJie/getQi/getJieQi','Lunar.getCurrent*','JieQi.isJie/isQi'])
p('C09','The four sexagenary pillars change exactly when their rule says',
'The day pillar advances by one of sixty every day without a break (at 23:00 under the early convention, at midnight under the late one), and the hour branch advances at each odd hour with its stem fixed by the day stem. The month pillar advances by one at each section term and only then, and the year pillar by one at the lunar new year, at the day of Start of Spring, or at its exact instant according to the variant asked for. Month and year, and hour and day, stems always satisfy the five-tigers and five-rats rules.',
['inputs','histories'],'every moment in years 1..9999, in particular both sides of every boundary second, all pillar variants',
'Tests compare a few hundred dates; a wrong pillar is confined to days between two boundaries (new year versus Start of Spring, term instant versus term day) in particular years.',
['Lunar.py','LunarTime.py','util/LunarUtil.py'],
[('year pillar','Lunar.py __computeYear'),('month pillar','Lunar.py __computeMonth'),('day pillar','Lunar.py __computeDay'),('hour pillar','Lunar.py __computeTime')],
['Lunar.get{Year,Month,Day,Time}*GanZhi*','Lunar.get*Gan/Zhi*','Lunar.get*Index*','Lunar.get*ShengXiao*'])
p('C10','Eight-character charts derive from the pillars under the chosen convention',
'An eight-character chart uses the instant-based year and month pillars, the day pillar of the selected convention and the hour pillar. Its hidden stems, ten-god relations, five elements, nayin, life stages, void branches, conception pillars and life/body palace pillars are the functions of those pillars that the tradition defines, for every one of the possible pillar combinations. Switching the convention changes exactly the day-derived values and switching back restores them.',
['inputs','histories'],'all pillar combinations reachable in years 1..9999, both conventions, any order of convention switches and queries',
'Tests check tens of charts; each table has 60 to 600 cells and the palace rules depend on month, hour and term combinations.',
['EightChar.py','util/LunarUtil.py'],
[('pillars','EightChar.py getYear/getMonth/getDay/getTime'),('ten gods','EightChar.py __getShiShenZhi'),('palaces','EightChar.py getMingGong/getShenGong'),('life stages','EightChar.py __getDiShi')],
['EightChar.*','Lunar.getBaZi*'],state=[('sect','day-pillar convention of a chart','EightChar.py __sect')])
p('C11','Searching dates by eight characters is sound and complete',
'Every date returned by the eight-character search really has the four requested pillars under the requested convention and lies in or after the base year. For any moment between the base year and the present, the search for its own four pillars returns a moment in the same two-hour period of the same day. Combinations that violate the stem rules return nothing, and results come in chronological order.',
['inputs'],'all pillar quadruples of moments from the base year to now, any base year, both conventions, and arbitrary inconsistent quadruples',
'Tests try a dozen quadruples; moments close to a section-term instant or in the late-night hour are what break completeness.',
['Solar.py'],[('search','Solar.py fromBaZi')],['Solar.fromBaZi'])
p('C12','Fortune cycles start and tile life according to term distance and direction',
'The luck-cycle direction follows year-stem polarity and gender, and the starting offset in years, months, days and hours is the distance to the next (forward) or previous (backward) section-term instant at the chosen convention\'s rate; the starting date is the birth date plus that offset. The ten-year cycles tile life from the birth year in order without gap, their pillars step from the month pillar one by one in the cycle\'s direction, and the years, minor cycles and months inside each have the matching calendar year, age and pillar at every index.',
['inputs'],'all births in years 1..9999, both genders, both conventions, all cycle counts and indexes',
'Tests follow a few births; direction, borrow/carry in the offset and modular pillar stepping at large or wrapped indexes are combinatorial.',
['eightchar/Yun.py','eightchar/DaYun.py','eightchar/LiuNian.py','eightchar/XiaoYun.py','eightchar/LiuYue.py'],
[('start offset','eightchar/Yun.py __computeStart'),('cycle pillars','eightchar/DaYun.py getGanZhi'),('minor cycles','eightchar/XiaoYun.py getGanZhi'),('months','eightchar/LiuYue.py getGanZhi')],
['Yun.*','DaYun.*','LiuNian.*','XiaoYun.*','LiuYue.*'])
p('C13','The holiday store behaves as a day-keyed map under any history of fixes',
'After any sequence of corrections, the store holds exactly one record per day: the one set last, absent if removed, otherwise the built-in record. Queries by day, month, year and by target festival day return exactly the matching records of that map in date order, with the name, work flag and target that were set; unknown keys find nothing, and an unfinished record at the end of a correction changes nothing. The built-in data itself is well formed and ordered.',
['histories','inputs'],'all sequences of corrections (additions, overwrites, removals, custom names, batches of several records) interleaved with all queries',
'Tests apply two or three corrections; the store is one long string edited by substring replacement, so interactions between records appear only in histories.',
['util/HolidayUtil.py','Holiday.py'],
[('correction','util/HolidayUtil.py fix'),('prefix search','util/HolidayUtil.py __findHolidaysForward'),('target search','util/HolidayUtil.py __findHolidaysBackward')],
['HolidayUtil.getHoliday','HolidayUtil.getHolidays','HolidayUtil.getHolidaysByTarget','HolidayUtil.fix'],
state=[('data','current record string','util/HolidayUtil.py __DATA_IN_USE'),('names','current names','util/HolidayUtil.py __NAMES_IN_USE')])
p('C14','Workday stepping counts exactly the working days',
'Stepping n working days from a date lands on the n-th working day strictly after it (or before it when n is negative), where a day works if the holiday store says so and otherwise if it is Monday to Friday; n = 0 returns the date itself, and the time of day is kept.',
['inputs','histories'],'every start date and signed n, for the built-in store and for stores changed by corrections',
'Tests step a few days around one holiday; make-up workdays, long holidays and corrected data combine freely.',
['Solar.py','util/HolidayUtil.py'],[('workday loop','Solar.py next(only_work_day)')],['Solar.next(n, True)'])
p('C15','The shared lunar-year cache is invisible under any history or thread schedule',
'Whatever years were asked for before, in any order, by any threads, and whether or not some requests failed, asking for a lunar year returns the data of exactly that year. No schedule of concurrent requests returns another year\'s data or a half-built year, deadlocks, or leaves the library blocked. A request that raises affects only its own caller.',
['schedules','histories','fault_sequences'],'all interleavings of concurrent requests for different years, with failures injected while a year is being built',
'The tests are single threaded and never continue after a failure.',
['LunarYear.py'],[('guarded single-entry cache','LunarYear.py fromYear')],['LunarYear.fromYear','Solar.getLunar'],
state=[('cached year','last lunar year built','LunarYear.py __CACHE_YEAR'),('lock','mutual exclusion for the cache','LunarYear.py __LOCK')])
p('C16','Day and hour almanac attributes are functions of the pillars',
'Decade (xun) and void branches, nayin, clash and evil direction, deity directions, Pengzu taboos, day officer, duty spirits, foetus-god position, lodges with their derived beast and palace, grand-duke directions and day fortune are, for every date, the values the tradition assigns to the year, month, day or hour pillar concerned (with the weekday, for lodges). Each variant (by new year, by Start of Spring, exact) uses its own pillar. Every such query answers for every valid date and time.',
['inputs'],'every combination of pillars, weekday, month and variant occurring in years 1..9999',
'Each attribute is a table with 10 to 84 cells per variant; tests hit a fraction and one typo in a cell goes unnoticed.',
['Lunar.py','LunarTime.py','util/LunarUtil.py'],[('attribute getters','Lunar.py'),('tables','util/LunarUtil.py')],['Lunar.get*','LunarTime.get*'])
p('C17','Seasonal counts follow solar terms and stems day by day',
'The 81 counted days of winter start on the day of Winter Solstice, nine by nine; the dog days start on the third geng day from Summer Solstice and the last ten on the first geng day from Start of Autumn, in consecutive runs of ten. The pentad and its name advance every five days after each term, at most three per term. Outside these periods the counts are absent, and the moon phase, six-day cycle and season follow the lunar day and month.',
['inputs'],'every day in years 1..9999',
'Tests check a few borders; length of the middle dog days and pentad clipping differ between years.',
['Lunar.py','ShuJiu.py','Fu.py'],[('winter count','Lunar.py getShuJiu'),('dog days','Lunar.py getFu'),('pentads','Lunar.py getWuHou/getHou')],['Lunar.getShuJiu','Lunar.getFu','Lunar.getWuHou','Lunar.getHou','Lunar.getYueXiang','Lunar.getLiuYao','Lunar.getSeason'])
p('C18','Nine-star sequences descend and ascend without breaks',
'The year star steps back by one each year in all three year conventions, and the month star by one each month where year and month are reckoned alike. The day star runs forward from the jiazi day nearest Winter Solstice and backward from the one nearest Summer Solstice, and the hour star likewise within the day from the start fixed by the day branch and half-year. Every star number carries its own colour, element, position and names, and the lunar-year, lunar-month, lunar-day and hour objects agree with one another.',
['inputs'],'every moment in years 1..9999, all conventions',
'Tests sample a few dates; the half-year switch and the sexagenary phase make the faults rare and regional.',
['NineStar.py','Lunar.py','LunarTime.py','LunarYear.py','LunarMonth.py'],[('year/month/day/hour star','Lunar.py get*NineStar'),('star tables','NineStar.py')],['Lunar.get*NineStar','LunarTime.getNineStar','LunarYear.getNineStar','LunarMonth.getNineStar','NineStar.*'])
p('C19','Festivals fall on exactly the days their definition names',
'Fixed-date solar and lunar festivals are reported on their date and on no other, weekday-rule festivals on exactly the n-th or last such weekday of the month, and the zodiac sign changes on its fixed dates. New Year\'s Eve is the day before lunar new year; the cold-food day is the day before Qingming; the spring and autumn community days are the fifth wu day after Start of Spring and Start of Autumn. Asking again gives the same list.',
['inputs'],'every day in years 1..9999',
'Tests list some festivals in some years; movable rules fail only for particular weekday/leap combinations.',
['Solar.py','Lunar.py','util/SolarUtil.py','util/LunarUtil.py'],[('solar festivals','Solar.py getFestivals'),('lunar festivals','Lunar.py getFestivals/getOtherFestivals')],['Solar.getFestivals/getOtherFestivals','Lunar.getFestivals/getOtherFestivals','Solar.getXingZuo'])
p('C20','Buddhist and Taoist calendars are faithful views of the lunar date',
'Buddhist and Taoist dates built from a lunar date give that lunar date back, with the year shifted by the era offset and the same month, day and time, and building them from their own fields gives an equal date. Observance days (fast days, merit days, stem-branch days, eight-node days and the listed festivals) hold on exactly the days their lunar date, solar term, or day pillar rule names.',
['inputs'],'every lunar date in years 1..9999 in which the era is defined',
'Tests check some dates; month-end fast days depend on month length and taboo days on month/pillar combinations.',
['Foto.py','Tao.py','FotoFestival.py','TaoFestival.py','util/FotoUtil.py','util/TaoUtil.py'],[('Buddhist view','Foto.py'),('Taoist view','Tao.py')],['Foto.*','Tao.*','Lunar.getFoto/getTao'])
p('C21','Daily and hourly advice decode to the pinned almanac entries',
'For every month pillar and day pillar the suitable and unsuitable activities, for every lunar month and day pillar the lucky and unlucky spirits, and for every day and hour pillar the hourly advice, are exactly the entries of this release\'s almanac, never another entry\'s, never empty, without duplicates within a list. No activity is both suitable and unsuitable on the same day or hour unless the almanac says so. A date\'s advice equals that of its pillars under the chosen month convention.',
['inputs'],'all 60 x 60 day entries by month branch, all 12 x 60 spirit entries, all 60 x 60 hour entries, and the dates selecting them',
'The tables are run-length strings of tens of kilobytes searched by substring; tests look at a few cells.',
['util/LunarUtil.py','Lunar.py','LunarTime.py'],[('decoding','util/LunarUtil.py getDayYi/getDayJi/getDayJiShen/getDayXiongSha/getTimeYi/getTimeJi')],['Lunar.getDayYi/getDayJi/getTimeYi/getTimeJi/getDayJiShen/getDayXiongSha','LunarTime.getYi/getJi'])
p('C22','Two-hour periods tile the day and agree with the date they belong to',
'The periods of a day cover 00:00 to 23:59 in order without gap or overlap, thirteen with the midnight period split into its early and late halves. A period object built for any time reports the period that contains that time, and all its attributes (pillar, zodiac, directions, clash, evil, spirits, nayin, void, star) equal those the date itself reports for that hour and those the pillar tradition defines. Every attribute of every period answers for every date.',
['inputs'],'every minute of every day type (60 day pillars, all solar-term halves), years 1..9999',
'Tests list the periods of one day; attributes are never compared with the date\'s own, and one of them has never been called.',
['LunarTime.py','Lunar.py','util/LunarUtil.py'],[('period bounds','LunarTime.py getMinHm/getMaxHm'),('period list','Lunar.py getTimes'),('hour branch','util/LunarUtil.py getTimeZhiIndex')],['Lunar.getTime/getTimes','LunarTime.*'])
p('C23','Queries are pure: no answer depends on what was asked before',
'Dates, months, years, charts and the other values never change once built, except a chart whose convention is switched and the holiday store when corrected. Any query gives the same answer however often, in whatever order, and on whichever equal object it is asked, also when the caller alters a festival list it was handed. Queries on one object never affect another object.',
['histories'],'all sequences of queries, steps, chart switches and list mutations over any set of live objects',
'Tests ask each question once on a fresh object; lazily filled fields, shared caches and handed-out internal lists only show in histories.',
['Lunar.py','Solar.py','EightChar.py','LunarYear.py','LunarMonth.py','Foto.py','Tao.py','util/HolidayUtil.py'],[('lazy chart','Lunar.py getEightChar'),('shared year','LunarYear.py fromYear'),('table copies','Solar.py getOtherFestivals')],['all public getters'])
p('C24','Printed dates are faithful: different dates never print alike',
'Solar dates print as zero-padded numbers, lunar dates as the Chinese numerals of their own year, month (with the leap mark) and day, and the Buddhist, Taoist, month, year and week objects likewise, so that the printed form can be read back to the same fields. The full descriptive string of a date is made up of the values its individual queries return. Printing succeeds for every valid date.',
['inputs'],'every date in years 1..9999 and every derived object',
'Tests compare a few strings; numerals for round years, the 11th/12th/leap months and days 10, 20, 30 follow special rules.',
['Solar.py','Lunar.py','LunarMonth.py','LunarYear.py','Foto.py','Tao.py','LunarTime.py'],[('lunar text','Lunar.py getYearInChinese/getMonthInChinese/getDayInChinese'),('full text','Lunar.py toFullString')],['toString','toFullString','get*InChinese'])
p('C25','Lunar year and month objects carry the attributes of their own year and month',
'A lunar year object reports the pillar, directions, grand-duke direction, star, age and period of its own year number, and its farming omens count the days from its own new year to the first day with the stem or branch each one names. A lunar month object reports the pillar of its place in its own year, the directions that follow, and the grand-duke direction and star of its month. Stepping years gives the object of that year.',
['inputs'],'every lunar year 1..9999 and every month of it, leap months and reform years included',
'Tests sample three years; each omen has its own stem or branch and wraps around in some years only, and months must use their own year, not the one last built.',
['LunarYear.py','LunarMonth.py'],[('farming omens','LunarYear.py __getZaoByGan/__getZaoByZhi'),('age and period','LunarYear.py getYuan/getYun'),('month pillar','LunarMonth.py getGanIndex')],['LunarYear.*','LunarMonth.*'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=3,x['id']
print(len(P))
