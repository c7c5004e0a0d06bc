"""Dates as people write them, per language and per registry format.  Written from the transformation registries'
descriptions and ordinary month names, independently of brel's tables."""
import datetime

# full names (the inflections that occur in dates) and the abbreviations the registry lists, January to December
MONTHS = {
    "bg": ["януари", "февруари", "март", "април", "май", "юни", "юли", "август", "септември", "октомври", "ноември", "декември"],
    "cs": ["ledna", "února", "března", "dubna", "května", "června", "července", "srpna", "září", "října", "listopadu", "prosince"],
    "cy": ["ionawr", "chwefror", "mawrth", "ebrill", "mai", "mehefin", "gorffennaf", "awst", "medi", "hydref", "tachwedd", "rhagfyr"],
    "da": ["januar", "februar", "marts", "april", "maj", "juni", "juli", "august", "september", "oktober", "november", "december"],
    "de": ["januar", "februar", "märz", "april", "mai", "juni", "juli", "august", "september", "oktober", "november", "dezember"],
    "el": ["ιανουαρίου", "φεβρουαρίου", "μαρτίου", "απριλίου", "μαΐου", "ιουνίου", "ιουλίου", "αυγούστου", "σεπτεμβρίου",
           "οκτωβρίου", "νοεμβρίου", "δεκεμβρίου"],
    "en": ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"],
    "es": ["enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"],
    "et": ["jaanuar", "veebruar", "märts", "aprill", "mai", "juuni", "juuli", "august", "september", "oktoober", "november", "detsember"],
    "fi": ["tammikuuta", "helmikuuta", "maaliskuuta", "huhtikuuta", "toukokuuta", "kesäkuuta", "heinäkuuta", "elokuuta",
           "syyskuuta", "lokakuuta", "marraskuuta", "joulukuuta"],
    "fr": ["janvier", "février", "mars", "avril", "mai", "juin", "juillet", "août", "septembre", "octobre", "novembre", "décembre"],
    "hr": ["siječnja", "veljače", "ožujka", "travnja", "svibnja", "lipnja", "srpnja", "kolovoza", "rujna", "listopada", "studenog", "prosinca"],
    "hu": ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"],
    "it": ["gennaio", "febbraio", "marzo", "aprile", "maggio", "giugno", "luglio", "agosto", "settembre", "ottobre", "novembre", "dicembre"],
    "lt": ["sausio", "vasario", "kovo", "balandžio", "gegužės", "birželio", "liepos", "rugpjūčio", "rugsėjo", "spalio", "lapkričio", "gruodžio"],
    "lv": ["janvāris", "februāris", "marts", "aprīlis", "maijs", "jūnijs", "jūlijs", "augusts", "septembris", "oktobris", "novembris", "decembris"],
    "nl": ["januari", "februari", "maart", "april", "mei", "juni", "juli", "augustus", "september", "oktober", "november", "december"],
    "no": ["januar", "februar", "mars", "april", "mai", "juni", "juli", "august", "september", "oktober", "november", "desember"],
    "pl": ["stycznia", "lutego", "marca", "kwietnia", "maja", "czerwca", "lipca", "sierpnia", "września", "października", "listopada", "grudnia"],
    "pt": ["janeiro", "fevereiro", "março", "abril", "maio", "junho", "julho", "agosto", "setembro", "outubro", "novembro", "dezembro"],
    "ro": ["ianuarie", "februarie", "martie", "aprilie", "mai", "iunie", "iulie", "august", "septembrie", "octombrie", "noiembrie", "decembrie"],
    "sk": ["januára", "februára", "marca", "apríla", "mája", "júna", "júla", "augusta", "septembra", "októbra", "novembra", "decembra"],
    "sl": ["januar", "februar", "marec", "april", "maj", "junij", "julij", "avgust", "september", "oktober", "november", "december"],
    "sv": ["januari", "februari", "mars", "april", "maj", "juni", "juli", "augusti", "september", "oktober", "november", "december"],
    "hi": ["जनवरी", "फरवरी", "मार्च", "अप्रैल", "मई", "जून", "जुलाई", "अगस्त", "सितंबर", "अक्टूबर", "नवंबर", "दिसंबर"],
}
# other spellings in use
MORE = {
    "de": {1: ["jänner", "jan", "jän"], 2: ["feb"], 3: ["maerz", "mär"], 10: ["okt"], 12: ["dez"], 5: ["mai"]},
    "nl": {3: ["mrt", "maa"], 1: ["jan"], 12: ["dec"]},
    "lt": {8: ["rugp", "rgp"], 9: ["rugs", "rgs"], 10: ["spl"], 12: ["grd"]},
    "en": {1: ["jan"], 2: ["feb"], 3: ["mar"], 4: ["apr"], 6: ["jun"], 7: ["jul"], 8: ["aug"], 9: ["sep"], 10: ["oct"], 11: ["nov"],
           12: ["dec"]},
    "fr": {1: ["janv"], 2: ["févr", "fevrier"], 7: ["juil"], 8: ["aout"], 9: ["sept"], 12: ["déc", "decembre"]},
    "da": {10: ["okt"], 1: ["jan"]},
    "ro": {11: ["noi", "nov"], 1: ["ian"]},
    "sk": {6: ["jun", "jún"], 7: ["jul"]},
    "pl": {10: ["paź", "pazdziernika"]},
    "hr": {3: ["ozujka", "ožu"]},
    "hu": {3: ["márc", "marc"], 9: ["szept"], 4: ["ápr"]},
    "es": {1: ["ene"], 12: ["dic"], 9: ["sep"]},
    "et": {12: ["dets"], 3: ["marts"]},
    "cs": {2: ["unora"], 9: ["zari"]},
    "el": {1: ["ιαν"], 3: ["μάρτιος", "μαρ"], 8: ["αύγουστος", "αυγ"], 5: ["μάιος"], 11: ["νοέμβριος"], 6: ["ιούνιος"], 7: ["ιούλιος"]},
}
# nominatives and mutated forms which only the formats without a day list
MONTH_YEAR_ONLY = {
    "cs": {1: ["leden", "lednu"], 2: ["únor", "unoru"], 3: ["březen", "březnu"], 4: ["duben"], 5: ["květen", "kvetnu"], 6: ["červen", "červnu"],
           7: ["červenec", "červenci"], 8: ["srpen", "srpnu"], 10: ["říjen"], 11: ["listopad"], 12: ["prosinec", "prosinci"]},
    "cy": {3: ["fawrth"], 5: ["fai"], 6: ["fehefin"], 7: ["ngorffennaf"], 9: ["fedi"], 11: ["dachwedd", "nhachwedd", "thachwedd"], 12: ["ragfyr"]},
}
LANGS = sorted(MONTHS)

# format (without "date-") -> (language, order of parts)
SHAPES = {}
for _l in LANGS:
    if _l in ("hu", "lt"):
        SHAPES[f"monthname-day-{_l}"] = (_l, "Md")
        SHAPES[f"year-monthname-day-{_l}"] = (_l, "yMd")
        SHAPES[f"year-monthname-{_l}"] = (_l, "yM")
    elif _l == "lv":
        SHAPES["day-monthname-lv"] = (_l, "dM")
        SHAPES["year-day-monthname-lv"] = (_l, "ydM")
        SHAPES["year-monthname-lv"] = (_l, "yM")
    elif _l == "hi":
        SHAPES["day-monthname-year-hi"] = (_l, "dMy")
        SHAPES["monthname-year-hi"] = (_l, "My")
    else:
        SHAPES[f"day-monthname-{_l}"] = (_l, "dM")
        SHAPES[f"day-monthname-year-{_l}"] = (_l, "dMy")
        SHAPES[f"monthname-year-{_l}"] = (_l, "My")
SHAPES.update({"monthname-day-en": ("en", "Md"), "monthname-day-year-en": ("en", "Mdy"), "year-monthname-en": ("en", "yM")})
NUMERIC = {"day-month": "dm", "month-day": "md", "day-month-year": "dmy", "month-day-year": "mdy", "year-month-day": "ymd",
           "year-month": "ym", "month-year": "my"}
ROMAN = {"day-monthroman": "dR", "day-monthroman-year": "dRy", "monthroman-year": "Ry"}
ROMANS = ["I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X", "XI", "XII"]

ERAS = [("明治", "明", (1868, 10, 23), (1912, 7, 29)), ("大正", "大", (1912, 7, 30), (1926, 12, 24)),
        ("昭和", "昭", (1926, 12, 25), (1989, 1, 7)), ("平成", "平", (1989, 1, 8), (2019, 4, 30)), ("令和", "令", (2019, 5, 1), (2099, 12, 31))]

SAKA_NAMES = [["Chaitra", "Caitra", "चैत्र"], ["Vaisakha", "Vaishākha", "वैशाख", "बैसाख"], ["Jyeshtha", "Jyaistha", "ज्येष्ठ"],
              ["Ashadha", "Āṣāḍha", "आषाढ"], ["Shravana", "Śrāvaṇa", "श्रावण", "सावन"], ["Bhadra", "Bhādrapada", "भाद्रपद", "भादो"],
              ["Ashvin", "Aswina", "आश्विन"], ["Kartika", "Kārtika", "कार्तिक"], ["Margashirsha", "Mārgaśīrṣa", "Agrahayana", "मार्गशीर्ष", "अगहन"],
              ["Pausha", "Pauṣa", "पौष"], ["Magha", "Māgha", "माघ"], ["Phalguna", "Phālguna", "फाल्गुन"]]

FULL = str.maketrans("0123456789", "０１２３４５６７８９")
HINDI = str.maketrans("0123456789", "०१२३४५६७८९")

# legacy names -> (registry versions, format they stand for, texts as in that registry: "long", "short" or None)
LEGACY = {
    "datedaymonth": ((2, 3), "day-month"), "datedaymonthdk": ((3,), "day-monthname-da"), "datedaymonthen": ((2, 3), "day-monthname-en"),
    "datedaymonthyear": ((2, 3), "day-month-year"), "datedaymonthyeardk": ((3,), "day-monthname-year-da"),
    "datedaymonthyearen": ((2, 3), "day-monthname-year-en"), "datemonthday": ((2, 3), "month-day"), "datemonthdayen": ((2, 3), "monthname-day-en"),
    "datemonthdayyear": ((2, 3), "month-day-year"), "datemonthdayyearen": ((2, 3), "monthname-day-year-en"), "datemonthyear": ((3,), "month-year"),
    "datemonthyeardk": ((3,), "monthname-year-da"), "datemonthyearen": ((2, 3), "monthname-year-en"), "datemonthyearin": ((3,), "monthname-year-hi"),
    "dateyearmonthday": ((3,), "year-month-day"), "dateyearmonthdaycjk": ((2, 3), "year-month-day"), "dateyearmonthcjk": ((2, 3), "year-month"),
    "dateyearmonthen": ((2, 3), "year-monthname-en"),
    "datedoteu": ((1,), "day-month-year"), "datedotus": ((1,), "month-day-year"), "dateslasheu": ((1,), "day-month-year"),
    "dateslashus": ((1,), "month-day-year"), "dateslashdaymontheu": ((1,), "day-month"), "dateslashmonthdayus": ((1,), "month-day"),
    "datelonguk": ((1,), "day-monthname-year-en"), "datelongus": ((1,), "monthname-day-year-en"), "dateshortuk": ((1,), "day-monthname-year-en"),
    "dateshortus": ((1,), "monthname-day-year-en"), "datelongdaymonthuk": ((1,), "day-monthname-en"), "datelongmonthdayus": ((1,), "monthname-day-en"),
    "dateshortdaymonthuk": ((1,), "day-monthname-en"), "dateshortmonthdayus": ((1,), "monthname-day-en"),
    "datelongyearmonth": ((1,), "year-monthname-en"), "dateshortyearmonth": ((1,), "year-monthname-en"),
    "datelongmonthyear": ((1,), "monthname-year-en"), "dateshortmonthyear": ((1,), "monthname-year-en"),
    "datedaymonthyearin": ((3,), "datedaymonthyearin"), "calindaymonthyear": ((2, 3), "ind-day-monthname-year-hi"),
    "dateerayearmonthdayjp": ((2, 3), "jpn-era-year-month-day"), "dateerayearmonthjp": ((2, 3), "jpn-era-year-month"),
}
MODERN = sorted(list(SHAPES) + list(NUMERIC) + list(ROMAN) + ["jpn-era-year-month", "jpn-era-year-month-day", "ind-day-monthname-year-hi"])


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def to_saka(y, m, d):
    """Gregorian to Indian national calendar, from the calendar's definition: Chaitra 1 is March 22 (21 in leap years),
    Chaitra has 30 days (31 in leap years), the next five months 31, the others 30."""
    date = datetime.date(y, m, d)

    def new_year(g):
        return datetime.date(g, 3, 21 if is_leap(g) else 22)
    g = y if date >= new_year(y) else y - 1
    day = (date - new_year(g)).days
    lengths = [31 if is_leap(g) else 30] + [31] * 5 + [30] * 6
    month = 0
    while day >= lengths[month]:
        day -= lengths[month]
        month += 1
    return g - 78, month + 1, day + 1


def impossible(want):
    """Whether the month of the canonical value has no such day."""
    try:
        if want.count("-") > 1:
            datetime.date.fromisoformat(want.replace("--", "2020-", 1))
        return False
    except ValueError:
        return True


def iso(parts, y, m, d):
    """The canonical value for a format with these parts."""
    has = set(parts.lower().replace("r", "m"))
    if "y" in has and "d" in has:
        return f"{y:04d}-{m:02d}-{d:02d}"
    if "y" in has:
        return f"{y:04d}-{m:02d}"
    return f"--{m:02d}-{d:02d}"
