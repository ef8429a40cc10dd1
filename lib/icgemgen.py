"""Concrete gravity-model texts for abstract header lines and data records."""
KW = {"gm": "earth_gravity_constant", "re": "radius", "deg": "max_degree", "norm": "norm"}
STR = [("product_type", "gravity_field"), ("modelname", "EIGEN-X v2"), ("errors", "formal"), ("tide_system", "tide_free"), ("errors", "calibrated_and_formal"), ("modelname", "M"), ("product_type", "p" * 60), ("modelname", "L" * 120), ("tide_system", "zero_tide"), ("errors", "no")]
VAL = {k: [v for q, v in STR if q == k] for k, _ in STR}
TEXTS = ["", "   ", "free text about the model", "the radius 5 and norm are below", "gfc 0 0 777 0", "normalized coefficients from GRACE",
         "radius_note 12", "errors_of_coefficients are formal", "max_degree_and_order 5", "modelnames M1 M2", "earth_gravity_constants 1 2",
         "begin_of_head =====", "key  L  M  C  S  sigma C  sigma S", "# norm unnormalized", "url http://icgem.gfz-potsdam.de", "product_types x", "end_of_comments", "end_of_file", "end_of_hea", "end_", "end of head", "End_of_head", "radiu 5", "max_deg 7", "model M9", "nor x", "tide zero_tide",
         "error formal", "product type x", "earth_gravity 7", "max_degre 3 radius 5", "RADIUS 5", "ENORM unnormalized"]
BADNUM = ["abc", "--5", "0", "0.0", "3986x", "1.5D+04", "6378,0", "e5", "x 6378"]
BADDEG = ["abc", "0", "-3", "2x", "3.5", "2E1", "-0"]

def num(rng, v):
    s = str(v)
    return rng.choice([s, s + ".0", s + ".", "%.6E" % v, "%.8e" % v, "+" + s, "0" + s + ".000"])

def header_line(rng, L):
    k = L["k"]
    lead = rng.choice(["", "", "", " ", "   "]); gap = rng.choice([" ", "  ", "          "])
    trail = rng.choice(["", "", "", "  ", " [m]", "   some remark", "\r"])
    if k == "text": return TEXTS[rng.randrange(len(TEXTS))] + rng.choice(["", "", "\r"])
    if k == "end": return "end_of_head" + rng.choice(["", " ", " =====================", "\r"])
    if k == "str":
        kw = L.get("w") or rng.choice(sorted(VAL)); L["w"] = kw
        val = rng.choice(VAL[kw]); L["t"] = "" if L["q"] == "empty" else val.split()[0]
        if L["q"] == "empty": return lead + kw + rng.choice(["", " ", "    ", "\r"])
        return lead + kw + gap + val + trail
    kw = KW[k]
    if L["q"] == "empty": return lead + kw + rng.choice(["", "  ", "\r"])
    if k == "norm": val = "fully_normalized" if L["v"] == 1 else rng.choice(["unnormalized", "fully_normalized_not", "fully", "Fully_normalized"])
    elif L["q"] == "bad": val = rng.choice(BADDEG if k == "deg" else BADNUM)
    elif k == "deg": val = str(L["v"])
    else: val = num(rng, L["v"])
    return lead + kw + gap + val + trail

def hexs(s): return s.encode("latin-1").hex()

def data_line(rng, R):
    """One line of the data section for an abstract record."""
    g = lambda: rng.choice([" ", "  ", "     ", "\t"])
    n, m = R["n"], R["m"]
    if R["q"] == "text":
        return rng.choice(["", "gfct %d %d 9999 9999 0 0 20050101" % (n, m), "trnd %d %d 99 99" % (n, m), "acos 0 0 99 0", "dot 0 0 9 0", "# gfc 0 0 99 0", "gfcx 0 0 99 0", "comment"])
    if R["q"] == "bad":
        k = rng.choice(["noord", "order>deg", "neg", "sn0", "noc", "nos", "alpha", "partord", "parts", "fort"])
        a, b = (max(n, 1), max(m, 1)) if k in ("nos", "parts", "fort") else (n, m)
        b = min(a, b)
        return {"noord": "gfc %d" % n, "order>deg": "gfc %d %d 5 5" % (n, n + 1), "neg": "gfc %d -1 5 5" % n, "sn0": "gfc %d 0 5 7" % n,
                "noc": "gfc %d %d" % (n, m), "nos": "gfc %d %d 5" % (n, m), "alpha": "gfc a b c d", "partord": "gfc %d %dx 5 0" % (n, m),
                "parts": "gfc %d %d 5 7x" % (n, m) if m else "gfc %d 0 5 0x" % n, "fort": "gfc %d %d 0.5D+01 0.0D+00" % (n, m)}[k]
    f = lambda v: rng.choice(["%d" % v, "%d.0" % v, "%.10e" % v, "%+.12E" % v, "%.3f" % v])
    tail = rng.choice(["", "", " 0.0 0.0", "   1.2e-12   3.4e-12", " ", "\r"])
    return "gfc " + rng.choice(["", " ", "   "]) + "%d" % n + g() + "%d" % m + g() + f(R["c"]) + g() + (f(R["s"]) if R["m"] else rng.choice(["0", "0.0", "-0.0", "0.0000E+00"])) + tail

def model_text(rng, deg, rs, gm, re_, norm, eofnl=True):
    hd = ["product_type gravity_field", "modelname TEST", "earth_gravity_constant %d" % gm, "radius %d.0" % re_, "max_degree %d" % deg, "errors formal"]
    if norm == 0: hd.append("norm unnormalized")
    elif rng.random() < .5: hd.append("norm fully_normalized")
    rng.shuffle(hd)
    body = "\n".join(data_line(rng, R) for R in rs)
    return "\n".join(hd) + "\nend_of_head ====\n" + body + ("\n" if eofnl else "")
