#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
TITLE = {0: "0. Form", 1: "1. Site location information", 2: "2. DORIS antenna and reference point information", 3: "3. DORIS beacons information", 4: "4. ITRF coordinates and velocities of the current DORIS ref. point (%s)",
         5: "5. IERS colocation information", 6: "6. Tide Gauge colocation information", 7: "7. Local site ties", 8: "8. Meteorological Instrumentation", 9: "9. DORIS network contacts"}
KEYS = ["Site name", "Four character ID", "Country", "Beacon model", "Notes", "Date installed (dd/mm/yy)", "Date removed (dd/mm/yy)", "X (m)", "Longitude", "Contact name", "Telephone", "Height above ground mark", "Local tie"]
WORDS = ["2 Ghz PC offset : 2 mm north, 1 mm west", "see http://ids-doris.org/doris", "Starec", "Alcatel", "12:30:00", "n/a", "2.5 m", "3.1 of the report", "", "62 28 52 N", "tied in 1992", "2. DORIS antenna moved"]
MORE = ["and fixed again after the storm", "north of the main building", "9. floor, room 12", "3.2 metres from the mast", "more than ten characters"]
def check(c):
    r = c.rng
    c.model_check("SiteLogMC", workers=8)
    beh = c.model_check("SiteLogMC", "SiteLogGen.cfg", workers=8)
    def date(): return r.randint(1986, 2022), r.randint(1, 12), r.randint(1, 28)
    def ant(idc):
        """fields of an antenna and what the table says of it"""
        d, e = date(), r.choice([None, date(), date()]); k = r.randrange(8)
        if k == 0: h, t = 0, ""
        elif k == 1: n = r.randint(0, 12); h, t = n * 1000000, "%d m" % n
        elif k == 2: h = r.randint(0, 4000) * 1000; t = "%.3f" % (h / 1e6)
        elif k == 3: h = r.randint(0, 4000) * 1000; t = "%.3fm" % (h / 1e6)
        else: h = r.randint(0, 40000000); t = "%.6f m" % (h / 1e6); 
        if k > 5: h -= h % 1000; t = "%.3f m (top of pillar: see notes)" % (h / 1e6)
        f = [("Four character ID", [idc]), ("Antenna model", [r.choice(["Starec B", "Alcatel"])]), ("Date installed (dd/mm/yy)", ["%02d/%02d/%04d" % d[::-1]]), ("Date removed (dd/mm/yy)", ["%02d/%02d/%04d" % e[::-1] if e else ""]), ("Height above ground mark", [t]), ("Notes", notes())]
        if r.random() < .4: r.shuffle(f)
        num = lambda x: x[0] * 10000 + x[1] * 100 + x[2]
        return [dict(key=a, pieces=b) for a, b in f], [idc, num(d), num(e) if e else 0, h]
    def notes(): return [r.choice(WORDS)] + r.choice([[], [], [r.choice(MORE)], r.sample(MORE, 2)])
    def part(): return [dict(key=k, pieces=notes()) for k in r.sample(KEYS, r.randint(0, 5))]
    def text(doc, name, site):
        o = ["     %s DORIS site description form" % name, "", ""]
        for b in doc:
            o.append(TITLE[b["nr"]] % site if b["nr"] == 4 else TITLE[b["nr"]])
            for i, p in enumerate(b["parts"]):
                o += [""] * r.randint(0, 2)
                if not (b["nr"] in (0, 1) and len(b["parts"]) == 1 and r.random() < .8): o.append("%d.%d" % (b["nr"], i + 1) + r.choice(["", " ", "  Antenna"]))
                for f in p:
                    o.append("  %-25s: %s" % (f["key"], f["pieces"][0]))
                    o += [" " * r.choice([4, 29]) + x for x in f["pieces"][1:]]
                    if r.random() < .1: o.append("")
            o += [""] * r.randint(0, 2)
        while o and o[-1] == "" and r.random() < .5: o.pop()
        return "\n".join(o) + ("\n" if r.random() < .8 else "")
    def log(doc, ants, i):
        site = ants[0][0] if ants else "YEMB"; name = "%s%d.%s" % (r.choice(["YELLOWKNIFE", "Adelie", "SAL"]), i, r.choice(["LOG", "log"]))
        return name, "Log " + json.dumps(dict(name=name, doc=doc, ants=ants, text=text(doc, r.choice(["YELLOWKNIFE", "TERRE-ADELIE"]), site)))
    def real(i, only=None):
        doc, ants = [], []
        for n in range(10):
            if n == 2:
                A = [ant("%s%s" % (r.choice(["YEM", "ADE", "TLS"]), "ABCD"[k])) for k in range(r.randint(1, 4))]
                doc.append(dict(nr=2, parts=[a for a, _ in A])); ants = [x for _, x in A]
                if r.random() < .04: break
            elif r.random() < .93: doc.append(dict(nr=n, parts=[part() for _ in range(r.choice([1, 1, 2, 3]) if n not in (0, 1) else 1)]))
        name, l = log(doc, ants, i)
        return name, [d["nr"] for d in doc], l
    sc = []
    for b in r.sample(beh, min(len(beh), c.pick(400, 2000))): # small documents; block numbers in order somewhere in 0-9
        n = sorted(r.sample([0, 1, 3, 4, 5, 6, 7, 8, 9], len(b)))
        doc = [dict(nr=n[i], parts=[[dict(key=KEYS["ab".index(f["key"])], pieces=[r.choice(WORDS)] + [r.choice(MORE) for _ in f["pieces"][1:]]) for f in p] for p in x["parts"]]) for i, x in enumerate(b)]
        if any(x["nr"] in (0, 1) and len(x["parts"]) > 1 for x in doc): pass
        name, l = log(doc, [], 1)
        sc.append([l] + ["Parse " + json.dumps(dict(log=1, name=name, nr=k)) for k in n + [r.randrange(10)]])
    for _ in range(c.pick(400, 8000)):
        s = []; N = r.choice([1, 1, 2, 3])
        for i in range(1, N + 1):
            name, nrs, l = real(i); s += [l, "Dump " + json.dumps(dict(log=i, name=name))]
            s += ["Parse " + json.dumps(dict(log=i, name=name, nr=k)) for k in r.sample(nrs, min(2, len(nrs))) + [r.randrange(10)]]
            if r.random() < .5: s.append("Again " + json.dumps(dict(log=i, name=name, nrs=[r.choice(nrs) for _ in range(3)])))
        if r.random() < .3: s.append("Other " + json.dumps(dict(name=r.choice(["README.txt", "old.LOG.bak", "LOG"]), text="2. DORIS antenna and reference point information\n2.1\n  Four character ID : XXXX\n")))
        s.append("Table " + json.dumps(dict(out=r.choice([0, 1]))))
        nm = r.choice(["YELLOWKNIFE", "TERRE-ADELIE", "Thule", "SAL_ISLAND"]); s.append("Name " + json.dumps(dict(name=nm, line="%s%s DORIS site description form%s" % (" " * r.choice([1, 4, 20]), nm, r.choice(["", "\n"])))))
        sc.append(s)
    os.environ["VF_SCRIPTS"] = os.path.join(vf.REPO, "script"); os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    c.assumptions += ["logs in the layout the reader documents; lines that go on with a field have more than ten characters and no colon", "field names of a part differ; ASCII"]
    c.conform("SiteLogTrace", vf.VERIF + "/harness/sitelog.py", sc, chunk_events=400)
if __name__ == "__main__": vf.main("C44", check)
