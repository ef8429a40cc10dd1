"""Space weather files in the CelesTrak CSV format."""
import datetime
HEAD = ("DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,"
        "F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81")
def ymd(mjd): d = datetime.date(1858, 11, 17) + datetime.timedelta(mjd); return "%04d-%02d-%02d" % (d.year, d.month, d.day)
def day(r, mjd):
    v = [r.choice([0, r.randint(0, 9), r.randint(10, 400)]) for _ in range(8)]
    return dict(k="day", d=mjd, v=v + [10 * (sum(v) // 8)] + [r.choice([r.randint(600, 3999), 10 * r.randint(60, 99)]) for _ in range(5)], f=r.choice(["OBS", "OBS", "OBS", "INT", "PRD"]))
def text(r, L):
    if L["k"] == "bad": return bad(r)
    full = L if L["k"] == "day" else day(r, L["d"])
    v = full["v"]; t10 = lambda x: ("%d" % (x // 10) if x % 10 == 0 and r.random() < .5 else "%.1f" % (x / 10))
    blank = r.random() < .1
    f = [ymd(full["d"]), "" if r.random() < .1 else str(r.randint(1, 2600)), str(r.randint(1, 27))] + [str(r.randint(0, 90)) for _ in range(8)] + [str(r.randint(0, 500))] + [str(x) for x in v[:8]] + [t10(v[8])] + \
        (["", "", ""] if blank else ["%.1f" % (r.randint(0, 25) / 10), str(r.randint(0, 9)), str(r.randint(0, 300))]) + [t10(v[9]), t10(v[10]), full["f"], t10(v[11]), t10(v[12]), t10(v[13]), t10(r.randint(600, 3000))]
    if L["k"] == "day": return ",".join(f) + r.choice(["", "", "", "\r"])
    how = r.randrange(5)
    if how == 0: f[12:21] = [""] * 9                                        # monthly prediction: no geomagnetic indices
    elif how == 1: f = f[:r.choice([1, 2, 5, 11, 12, 13, 15, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29])]
    elif how == 2: f[r.choice([12, 14, 19, 20, 24, 25, 27, 28, 29])] = r.choice(["", "x", "12x", " 7", "-"])
    elif how == 3:                                                           # cut anywhere before the last column that is read is complete
        t = ",".join(f); return t[:r.randint(10, len(",".join(f[:30])))]
    else: f[26] = r.choice(["", "O", "OB"])
    return ",".join(f)
def bad(r):
    tail = ",2587,25" + ",30" * 8 + ",240" + ",7" * 8 + ",7,0.4,1,80,100.5,101.5,OBS,120.0,121.0,122.0,123.0"
    return r.choice([lambda: "", lambda: "2020-01-1", lambda: "2020-13-01" + tail, lambda: "2020-02-30" + tail, lambda: "2020-0x-01" + tail, lambda: "x" + tail, lambda: "2020-01", lambda: " " * 40,
                     lambda: ymd(r.randint(50000, 60000))[:r.randint(0, 9)], lambda: "20200101" + tail, lambda: "2020-00-10" + tail, lambda: "2020-01-00" + tail, lambda: ymd(58849) + tail + " " * 500, lambda: "20 0-01-01" + tail, lambda: "2020-1 -01" + tail])()
def head(r, kind): return HEAD + r.choice(["", "", "\r", "  "]) if kind == "ok" else r.choice(["", "DATE,BSRN", HEAD[1:], HEAD[:-1], HEAD.lower()])
