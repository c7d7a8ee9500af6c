"""Command scripts for the conformance driver.

gen(prop, seed, n) returns the lines of a script of about n commands that
exercises the operations of one property.  The generator decides nothing: it
only knows how to write legal and (deliberately) illegal calls."""
import math, random, struct

TYPES = ["RGB_TRUE", "RGB_DEEP", "GREY_TRUE", "GREY_DEEP", "CMYK", "HSI", "HSV", "HSL", "HCY", "XYZ", "XYY", "CIELUV", "LAB", "LCH_AB", "LCH_UV"]
NC = {t: 3 for t in TYPES}; NC.update(GREY_TRUE=1, GREY_DEEP=1, CMYK=4)
RGBF = TYPES[:9]; XYZF = TYPES[9:]; CYL = ["HSI", "HSV", "HSL", "HCY"]
TRUE = ("RGB_TRUE", "GREY_TRUE")
PRESETS = ["sRGB", "adobeRGB", "pal_secam", "americaNTSC", "oldNTSC", "appleRGB", "dci_p3", "uhdtv", "adobeWideGammutRGB", "rommRGB", "bestRGB", "betaRGB",
           "bruceRGB", "colorMatchRGB", "donRGB4", "ektaSpacePS5", "ProPhotoRGB", "SMPTE_C_RGB", "cieRGB"]
PRIM = {"sRGB": (.64, .33, .3, .6, .15, .06), "adobe": (.64, .33, .21, .71, .15, .06), "wide": (.735, .265, .115, .826, .157, .018), "ntsc": (.67, .33, .21, .71, .14, .08)}
GAMMAS = ["gamma1_8", "gamma2_2", "gamma2_6", "gamma2_8", "sRGB", "gammaAdobe", "gammaRomm", "gammaUHDTV"]
WPS = [w + "_" + o for w in ["D50", "D55", "D65", "D75", "A", "B", "C", "E"] + ["F%d" % i for i in range(1, 13)] for o in ("2", "10")]
SEP = ["normal", "multiply", "screen", "overlay", "darken", "lighten", "color_dodge", "linear_dodge", "color_burn", "linear_burn", "hard_light", "soft_light",
       "vivid_light", "linear_light", "pin_light", "hard_mix", "difference", "subtract", "divide", "plus_lighter", "plus_darker", "exclusion"]
HCYM = ["hue", "saturation", "color", "luminosity"]
PDS = ["src", "dest", "atop", "dest_atop", "over", "dest_over", "in", "dest_in", "out", "dest_out", "x_or", "clear"]
CATS = ["von_kries", "bradford", "bradford_s", "xyz_scale", "sharp", "cmccat97_s", "cmccat97", "cmccat2000_s", "cmccat2000", "cat02_s", "cat02"]
LO = {"CIELUV": -100, "LAB": -128}
HI = {"RGB_TRUE": 255, "GREY_TRUE": 255, "XYZ": 100, "XYY": 100, "CIELUV": 100, "LCH_AB": 100, "LCH_UV": 100, "LAB": 128}
def objlo(t): return LO.get(t, 0)
def objhi(t): return HI.get(t, 1)
def lo(t, i): return 0 if t in ("CIELUV", "LAB") and i == 0 else objlo(t)
def hi(t, i):
    if t in CYL and i == 0 or t in ("LCH_AB", "LCH_UV") and i == 2: return 359
    return 100 if t == "LAB" and i == 0 else objhi(t)
def f32(x):
    try: return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf
def fbits(x): return "#%08x" % struct.unpack("I", struct.pack("f", f32(x)))[0]
def ulp(x, n):
    b = struct.unpack("i", struct.pack("f", f32(x)))[0]
    return struct.unpack("f", struct.pack("i", b + n))[0]

class G:
    def __init__(self, seed):
        self.r = random.Random(seed); self.out = []; self.t = {}; self.d = {}; self.nslot = 0
        self.nd = 0; self.nw = 0; self.ng = 0; self.np = 0; self.defs = []; self.parts = []; self.wps = []; self.gms = []; self.dw = {}
        self.mat = {}
    def emit(self, op, f="-", s=(), k=(), p=(), txt=None):
        line = " ".join([op, f] + [str(x) for x in s]) + "|" + " ".join(str(x) for x in k) + "|" + " ".join(fbits(x) for x in p) + "|"
        self.out.append(line + (txt if txt is not None else ""))
    def ch(self, *a): return self.r.choice(a)
    def pick(self, l): return self.r.choice(l)
    def p(self, x): return self.r.random() < x
    # -- slots
    def slot(self, hi=60):
        self.nslot = self.nslot % hi + 1
        return self.nslot
    def slots(self, t=None, d=None):
        return [s for s in self.t if (t is None or self.t[s] == t) and (d is None or self.d[s] == d)]
    # -- numbers
    def unit(self):
        r = self.r; q = r.random()
        if q < .16: return 0.0
        if q < .30: return 1.0
        if q < .36: return 0.5
        if q < .50: return r.randrange(256) / 255
        if q < .56: return r.choice([.25, .75, .2, 1 / 3, 2 / 3, .1, .9, .04045, .0031308, .003, .99, .01, .008856])
        if q < .60: return r.random() * .02
        return r.random()
    def alpha(self):
        q = self.r.random()
        return 1.0 if q < .35 else 0.0 if q < .45 else self.r.choice([.5, .25, .75, 128 / 255, 1 / 255, 254 / 255]) if q < .65 else self.r.random()
    def hue(self):
        r = self.r; q = r.random()
        if q < .3: return float(r.choice([0, 60, 120, 180, 240, 300, 359, 30, 90, 270, 345, 164, 345]))
        if q < .36: return float(r.choice([59.9999, 60.0001, 119.9999, 120.0001, 239.999, 240.001, 299.999, 300.001, 358.9, .001]))
        return r.random() * 359
    def rgb(self):
        r = self.r; q = r.random()
        if q < .08: return [0., 0., 0.]
        if q < .14: return [1., 1., 1.]
        if q < .24: return [self.unit()] * 3
        if q < .34: return [float(r.randrange(2)) for _ in range(3)]
        if q < .44:
            a, b = self.unit(), self.unit(); v = [a, a, b]; r.shuffle(v); return v
        return [self.unit() for _ in range(3)]
    def comps(self, t):
        v = self.comps_(t)
        if self.p(.07): v = [x if self.p(.5) else float(self.ch(0, lo(t, i), hi(t, i))) for i, x in enumerate(v)]
        return v
    def comps_(self, t):
        r = self.r
        if t == "RGB_DEEP": return self.rgb()
        if t == "RGB_TRUE": return [float(round(255 * x)) for x in self.rgb()]
        if t == "GREY_DEEP": return [self.unit()]
        if t == "GREY_TRUE": return [float(round(255 * self.unit()))]
        if t == "CMYK":
            v = self.rgb() + [self.unit()]
            if self.p(.06): v[3] = 1.0
            return v
        if t in CYL:
            h, a, b = self.hue(), self.unit(), self.unit()
            return [h, a, b]
        if t == "XYZ":
            q = r.random()
            if q < .1: return [0., 0., 0.]
            if q < .2: v = self.unit(); return [.9504 * v, v, 1.0888 * v]
            if q < .3: return [self.ch(0., self.unit()) for _ in range(3)]
            if q < .8: return [self.unit(), self.unit(), self.unit()]
            if q < .9: return [r.random() * .009, r.random() * .009, r.random() * .009]
            return [r.random() * 100, r.random() * 100, r.random() * 100]
        if t == "XYY":
            if self.p(.1): return [.3127, .329, 0.0]
            if self.p(.05): return [r.random(), 0.0, r.random()]
            if self.p(.6): return [.15 + .45 * r.random(), .1 + .5 * r.random(), self.unit()]
            return [.02 + r.random() * .9, .02 + r.random() * .9, self.unit()]
        if t == "CIELUV":
            if self.p(.1): return [0., 0., 0.]
            return [self.L(), r.uniform(-60, 80), r.uniform(-60, 60)]
        if t == "LAB":
            if self.p(.08): return [0., 0., 0.]
            return [self.L(), r.choice([0., r.uniform(-100, 100), r.uniform(-10, 10)]), r.choice([0., r.uniform(-100, 100), r.uniform(-10, 10)])]
        if t == "LCH_AB" or t == "LCH_UV":
            return [self.L(), r.choice([0., r.uniform(0, 100), r.uniform(0, 20)]), self.hue()]
    def L(self):
        q = self.r.random()
        return self.r.choice([0., 100., 50., 8., 7.99, 8.01, 7.9996, 7.9997, 16., 15.99, 16.01]) if q < .4 else self.r.uniform(0, 100) if q < .8 else self.r.uniform(0, 12)
    def wild(self, t, i):
        """any float at all, biased to the borders of the component's range"""
        a, b = lo(t, i), hi(t, i); r = self.r; q = r.random()
        if q < .3: return r.uniform(a, b)
        if q < .5: return r.choice([a, b, ulp(b, 1), ulp(b, -1), a + 1e-6, -1e-6, objhi(t), objlo(t), a - .001, b + .001, b * .5])
        if q < .62: return r.choice([math.nan, math.inf, -math.inf, 3e38, -3e38, 1e-40, -0.0, 1e10, -1e10])
        if q < .72: return r.choice([360., 359., 359.5, 359.0001, 358.9999, -1., 361., 720., -360., 719.5, -720., 1080.25, 400.])
        return r.uniform(a - 2 * (b - a), b + 2 * (b - a))
    # -- environment
    def setup(self, ndefs=3, custom=1, usergamma=0.0):
        for _ in range(6): self.wpreset()
        for _ in range(3): self.gpreset()
        for _ in range(4): self.part()
        if usergamma: self.glist()
        names = ["sRGB"] + self.r.sample(PRESETS[1:], ndefs - 1) if ndefs else []
        for n in names: self.dpreset(n)
        for _ in range(custom): self.dcustom(usergamma)
    def wpreset(self, n=None):
        n = n or self.pick(WPS); self.emit("wp", n); self.nw += 1; self.wps.append(self.nw); return self.nw
    def whalf(self):
        """a white point that shares the chromaticity or the tristimulus of a preset, not both"""
        T, c = self.pick(sorted(WHITE.values())), self.pick(sorted(WHITE.values())); f = self.ch(.5, .8, 1.25, 1.)
        self.emit("wp", self.ch("full", "fulla"), (), (), [f * v for v in T[:3]] + list((T if self.p(.6) else c)[3:])); self.nw += 1; self.wps.append(self.nw); return self.nw
    def gpreset(self, n=None):
        self.emit("gm", n or self.pick(GAMMAS)); self.ng += 1; self.gms.append(self.ng); return self.ng
    def part(self, kind=None, border=None):
        if border is None:
            while True:
                border = f32(self.r.randrange(1, 41) / 40 if self.p(.7) else self.r.randrange(1, 990) / 1000 if self.p(.8) else self.ch(0., -.25, self.r.randrange(1001, 2900) / 1000))
                if all(abs(border - b) > 1e-4 for _, b in self.parts): break
        kind = self.r.randrange(7) if kind is None else kind
        self.emit("gpart", "-", (), (kind,), (border,)); self.np += 1; self.parts.append((self.np, border)); return self.np
    def somelist(self):
        q = [x for x, _ in self.r.sample(self.parts, min(len(self.parts), self.r.randrange(0, 4)))]
        if self.p(.08): q.insert(self.r.randrange(len(q) + 1), 0)   # a missing part
        return q
    def glist(self):
        a, b = self.somelist(), self.somelist()
        self.emit("gm", "list", (), [len(a)] + a + b); self.ng += 1; self.gms.append(self.ng); return self.ng
    def dpreset(self, n):
        self.emit("def", n); self.nd += 1; self.defs.append(self.nd); self.dw[self.nd] = None; return self.nd
    def prims(self):
        if self.p(.5): return list(self.pick(list(PRIM.values())))
        r = self.r
        return [r.uniform(.6, .73), r.uniform(.26, .36), r.uniform(.15, .32), r.uniform(.58, .75), r.uniform(.12, .18), r.uniform(.03, .1)]
    def dcustom(self, usergamma=0.0):
        w = self.pick(self.wps); g = self.pick(self.gms) if self.p(usergamma) else self.pick([x for x in self.gms[:3]])
        self.emit("def", self.ch("custom", "customa"), (), (w, g), self.prims()); self.nd += 1; self.defs.append(self.nd); self.dw[self.nd] = w; return self.nd
    def mutate_def(self):
        d = self.pick(self.defs); q = self.r.random()
        if q < .6: w = self.pick(self.wps); self.emit("setwp", "-", (), (d, w)); self.dw[d] = w
        elif q < .85: self.emit("setgm", "-", (), (d, self.pick(self.gms[:3])))
        else: self.emit("def", "copy", (), (d,)); self.nd += 1; self.defs.append(self.nd); self.dw[self.nd] = self.dw[d]
        if len(self.defs) > 12: self.defs.pop(0)
    # -- objects
    def put(self, s, t, d): self.t[s] = t; self.d[s] = d
    def scale(self, t, a): return a * 255 if t in TRUE else a
    def new(self, t=None, d=None, c=None, a=None):
        t = t or self.pick(TYPES); d = d or self.pick(self.defs); s = self.slot()
        c = self.comps(t) if c is None else c; a = self.alpha() if a is None else a
        if t in TRUE and self.p(.5): a = round(a * 255) / 255
        self.emit("new", t, (s,), (d,), c + [self.scale(t, a)]); self.put(s, t, d); return s
    def conv(self, src, t, entry=None):
        s = self.slot()
        while s == src or s in self.keep: s = self.slot()
        self.emit("conv", t, (s, src), (self.r.randrange(2) if entry is None else entry,)); self.put(s, t, self.d[src]); return s
    keep = ()
    def near(self, kind, f, *s): self.emit("near", f, s, (kind,))
    def real(self, t=None, d=None):
        """a color as users have them: direct, or converted from RGB"""
        t = t or self.pick(TYPES)
        if t in XYZF and self.p(.6) or t not in XYZF and self.p(.1):
            s = self.new("RGB_DEEP", d); self.keep = (s,); r = self.conv(s, t); self.keep = (); return r
        return self.new(t, d)
    def audit(self): self.emit("audit")

def c01(g):
    g.setup(2, 0)
    while True:
        t = g.pick(TYPES); s = g.slot(20); d = g.pick(g.defs)
        if t in ("RGB_TRUE", "RGB_DEEP") and g.p(.2):
            g.emit("new", t, (s,), (d, 1), [g.wild(t, 0), g.scale(t, g.wild("RGB_DEEP", 0))])
        else: g.emit("new", t, (s,), (d,), [g.wild(t, i) for i in range(NC[t])] + [g.scale(t, g.wild("RGB_DEEP", 0))])
        g.put(s, t, d)
        for _ in range(g.r.randrange(1, 8)):
            q = g.r.random(); s = g.pick(list(g.t)); t = g.t[s]; i = g.r.randrange(NC[t])
            if q < .45: g.emit("setc", "-", (s,), (i,), [g.wild(t, i)])
            elif q < .6: g.emit("gset", "-", (s,), (i,), [g.wild(t, i)])
            elif q < .66:
                a, b = sorted([g.r.uniform(lo(t, i), hi(t, i)) for _ in range(2)]); g.emit("gset", "-", (s,), (i,), [g.wild(t, i), b, a])
            elif q < .68: g.emit("gset", "-", (s,), (g.ch(-1, NC[t], NC[t] + 1, 100),), [0.5])
            elif q < .85: g.emit("alpha", "-", (s,), (), [g.scale(t, g.wild("RGB_DEEP", 0))])
            else: g.emit("read", "-", (s,))
        yield
def c02(g):
    g.setup(3, 0)
    for _ in range(12): g.new()
    while True:
        q = g.r.random()
        if q < .15 or not g.t: g.new()
        else:
            a = g.pick(list(g.t)); t = g.t[a]; same = [s for s in g.slots(t)]
            b = g.pick(same)
            if q < .27: s = g.slot(); g.emit("copy", "-", (s, a)); g.put(s, t, g.d[a])
            elif q < .37:
                f = t if g.p(.7) else g.pick(TYPES); s = g.slot(); g.emit("base", f, (s, a))
                if f == t: g.put(s, t, g.d[a])
            elif q < .47: g.emit("assign", "-", (a, b))
            elif q < .52: g.emit("bassign", "-", (a, b)); g.d[a] = g.d[b]
            elif q < .62: g.emit("eq", "-", (a, g.pick(list(g.t)) if g.p(.3) else b))
            elif q < .64:
                s = g.slot(); g.emit("copy", "-", (s, a)); g.put(s, t, g.d[a])
                if g.p(.7):
                    i = g.r.randrange(NC[t])
                    if g.p(.5): g.emit("alpha", "-", (s,), (), [g.scale(t, g.alpha())])
                    else: g.emit("setc", "-", (s,), (i,), [g.r.uniform(lo(t, i), hi(t, i))])
                g.emit("eq", "-", (a, s))
            elif q < .72:
                c = b if g.p(.8) else g.pick(list(g.t)); s = 62
                g.emit("plus", "-", (s, a, c))
                if g.t[c] == t and g.p(.6):
                    s2 = g.slot(); g.emit("base", t, (s2, s)); g.put(s2, t, g.d[a])
            elif q < .78:
                s = 63; g.emit("copy", "-", (s, a)); g.emit("amul", "-", (s,))
                if g.p(.5): g.emit("adiv", "-", (s,))
                g.emit("read", "-", (s,))
            elif q < .82:
                s = 64; g.emit("copy", "-", (s, a))
                if g.p(.5): g.emit("alpha", "-", (s,), (), [g.scale(t, g.ch(0.0, .5, 1.0, .3))])
                g.emit("adiv", "-", (s,))
            elif q < .9: g.emit("get", "-", (a,), (g.r.randrange(-1, NC[t] + 2),))
            elif q < .93: d = g.pick(g.defs); g.emit("setdef", "-", (a,), (d,)); g.d[a] = d
            elif q < .97:
                i = g.r.randrange(NC[t]); g.emit("setc", "-", (a,), (i,), [g.r.uniform(lo(t, i), hi(t, i))])
            else: g.emit("gset", "-", (a,), (g.r.randrange(-2, NC[t] + 2),), [g.r.uniform(objlo(t), objhi(t))])
        if g.p(.02): g.audit()
        yield
def hexes(g):
    q = g.r.random(); dg = "0123456789abcdefABCDEF"
    n = g.ch(6, 8) if q < .6 else g.r.randrange(0, 12)
    s = "".join(g.r.choice(dg) for _ in range(n))
    if g.p(.4): s = "#" + s
    if q > .75 and s:
        i = g.r.randrange(len(s)); c = g.r.choice("gGxX#zZ -+.,:;@`/?!%&*()[]~'\"\\\t\x01\x7f")
        s = s[:i] + c + s[i + 1:] if g.p(.7) else s[:i] + c + s[i:]
    if g.p(.03): s = g.ch("#", "##123456", "0x123456", "0X12345678", " 123456", "123456 ", "12345", "1234567", "#1234567", "G00000", "fffffg", "#12345g78", "/23456", ":23456", "@23456", "`23456", "12 456", "-12345", "+12345", "1e5000", "")
    return s.replace("|", "!").replace("\n", "")
def c03(g):
    g.setup(3, 0)
    while True:
        if g.p(.7): g.emit("hexs", "-", (g.slot(),), (g.pick(g.defs),), (), hexes(g))
        else:
            b = [g.ch(0, 255, 128, 127, g.r.randrange(256)) for _ in range(4)]
            g.emit("hexi", "-", (g.slot(),), (g.pick(g.defs), b[0] * 256 + b[1], b[2] * 256 + b[3]))
        yield
def c04(g):
    g.setup(3, 2)
    while True:
        s = g.real(); g.keep = (s,)
        ts = g.r.sample(TYPES, 5)
        if g.p(.3): ts.append(g.t[s])
        for t in ts:
            a = g.conv(s, t, 0)
            if g.p(.5): g.keep = (s, a); b = g.conv(s, t, 1); g.near(4, "-", a, b); g.keep = (s,)
        g.keep = ()
        if g.p(.05): g.audit()
        if g.p(.05): g.mutate_def()
        yield
def c05(g):
    g.setup(2, 0)
    while True:
        s = g.new(g.pick(RGBF)); g.keep = (s,)
        for t in g.r.sample(RGBF, 5):
            x = g.conv(s, t)
            if g.p(.3): g.conv(x, g.pick(RGBF))
        g.keep = ()
        yield
def c06(g):
    g.setup(5, 4)
    while True:
        s = g.real(g.pick(XYZF) if g.p(.75) else g.pick(RGBF)); g.keep = (s,)
        for t in (g.r.sample(XYZF, 3) + [g.pick(TYPES)]) if g.t[s] in RGBF else g.r.sample(XYZF, 3) + [g.pick(RGBF), "RGB_DEEP"]:
            g.conv(s, t)
        g.keep = ()
        if g.p(.12): g.mutate_def()
        yield
def c07(g):
    g.setup(5, 3)
    while True:
        if g.p(.75): a = g.pick(["RGB_TRUE", "RGB_DEEP"]); s = g.new(a); bs = g.r.sample(["RGB_DEEP"] + RGBF[4:] + XYZF, 4)
        elif g.p(.3): a = g.pick(["GREY_TRUE", "GREY_DEEP"]); s = g.new(a); bs = ["RGB_TRUE" if a == "GREY_TRUE" else "RGB_DEEP", "RGB_DEEP"] + (["GREY_DEEP"] if a == "GREY_TRUE" else [])
        else:
            a = g.pick(RGBF[4:] + XYZF); x = g.new("RGB_DEEP"); g.keep = (x,); s = g.conv(x, a); bs = ["RGB_DEEP"]
        for b in bs:
            if b == a: continue
            g.keep = (s,); m = g.conv(s, b); g.keep = (s, m); z = g.conv(m, a); g.near(7, b, s, z)
        g.keep = ()
        if g.p(.1): g.mutate_def()
        yield
def c08(g):
    g.setup(4, 2)
    while True:
        far = False
        if g.p(.6): x = g.new("RGB_DEEP" if g.p(.7) else "RGB_TRUE")
        elif g.p(.4): x = g.new(g.ch(*[t for t in TYPES if t not in XYZF]))
        else: far = True; y = g.r.uniform(.05, 1); x = g.new("XYZ", None, [y * g.r.uniform(.4, 2.), y, y * g.r.uniform(.4, 2.)])
        g.keep = (x,); s = g.conv(x, g.pick(XYZF if far else TYPES)) if g.p(.8) else x
        for _ in range(3):
            b, c = g.pick(XYZF if far else TYPES), g.pick(TYPES)
            g.keep = (s,); y = g.conv(s, c); g.keep = (s, y); m = g.conv(s, b); g.keep = (s, y, m); z = g.conv(m, c); g.near(8, b, s, y, z)
        g.keep = ()
        if g.p(.08): g.mutate_def()
        yield
def pair(g, calc=False):
    d = g.pick(g.defs); a = g.real(None, d); g.keep = (a,)
    b = g.real(None, d); g.keep = (); return a, b
def outslot(g, *a):
    s = g.slot()
    while s in a: s = g.slot()
    return s
def c09(g):
    g.setup(3, 1)
    while True:
        a, b = pair(g)
        if g.t[a] not in ("RGB_DEEP", "RGB_TRUE") and g.p(.6): a = g.new(g.pick(["RGB_DEEP", "RGB_TRUE"]), g.d[b]); g.keep = ()
        if a == b: continue
        for _ in range(6):
            q = g.r.random(); s = outslot(g, a, b)
            us, ud = g.r.randrange(2), g.r.randrange(2)
            fl = (2, 2) if g.p(.3) else (us, ud)
            if q < .68: g.emit("blend", g.pick(SEP), (s, a, b), fl)
            elif q < .84: g.emit("blend", g.pick(HCYM), (s, a, b), fl)
            elif q < .91: g.emit("blend", "custom", (s, a, b), (us, ud, g.r.randrange(7)))
            else: g.emit("blend", "dissolve", (s, a, b), fl)
            g.put(s, g.t[a], g.d[a])
        if g.p(.01):
            x = g.new("RGB_DEEP", g.d[a], [0., 0., 0.], g.ch(1., .8, .3)); y = g.new("RGB_DEEP", g.d[a], [1., 1., 1.], g.ch(.5, .6, .1)); g.emit("dissolve_stat", "-", (x, y), (2000,))
        yield
def c10(g):
    g.setup(3, 1)
    while True:
        a, b = pair(g)
        if g.p(.5): a = g.new(g.pick(["RGB_DEEP", "RGB_TRUE"]), g.d[b])
        if a == b: continue
        for f in g.r.sample(PDS, 5):
            s = outslot(g, a, b); g.emit("pd", f, (s, a, b)); g.put(s, g.t[a], g.d[a])
        yield
def ok_calc(g, t, d):
    c = g.comps(t)
    if t == "HSL" and (c[2] < .01 or c[2] > .99): c[2] = .5
    if t in XYZF and g.p(.7):
        x = g.new("RGB_DEEP", d); g.keep = (x,); s = g.conv(x, t); g.keep = (); return s
    return g.new(t, d, c)
def weight(g): return g.ch(0., 1., .5, .25, g.r.random(), g.r.random())
def c11(g):
    g.setup(3, 1)
    while True:
        d = g.pick(g.defs); t = g.pick(TYPES)
        a = ok_calc(g, t, d); b = ok_calc(g, t, d)
        c = ok_calc(g, g.pick(TYPES), d)
        if len({a, b, c}) < 3: continue
        for _ in range(4):
            s = outslot(g, a, b, c); op = g.ch("add", "mix", "sub"); q = g.r.random(); inc = g.ch(0, 1, 2)
            ps = [weight(g) for _ in range(2 if op == "add" else 1)]
            if q < .55: g.emit(op, "typed", (s, a, b), (inc,), ps)
            elif q < .85: g.emit(op, "base", (s, a, b), (inc,), ps)
            else: g.emit(op, "base", (s, a, c), (inc,), ps)
            g.put(s, t, d)
        n = g.ch(1, 2, 3, 4, g.r.randrange(1, 16), g.r.randrange(16, 41) if g.p(.4) else 5); l = [a, b][:n] + [g.pick([a, b]) for _ in range(n - 2)]
        if n > 2: l[-1] = ok_calc(g, t, d)
        s = outslot(g, *l); g.emit("avg", t, [s] + l, (g.r.randrange(2),)); g.put(s, t, d)
        if g.p(.02): g.audit()
        yield
def c12(g):
    g.setup(3, 1)
    m = 0
    while True:
        a, b = pair(g); s = outslot(g, a, b); t = g.t[a]; q = g.r.random()
        if q < .3:
            other = g.new(g.pick(TYPES), g.pick(g.defs)); s = outslot(g, a, b, other)
            x, y = g.ch((0, b), (a, 0), (0, 0), (a, other), (a, b), (other, b))
            if g.p(.3): g.emit("blend", "custom", (s, x, y), (g.r.randrange(2), g.r.randrange(2), 2))
            elif g.p(.6): g.emit("blend", g.pick(SEP + HCYM + ["dissolve"]), (s, x, y), g.ch((2, 2), (0, 1), (1, 1)))
            else: g.emit("pd", g.pick(PDS), (s, x, y))
            if x and y and g.d[x] == g.d[y]: g.put(s, g.t[x], g.d[x])
        elif q < .55:
            op = g.ch("add", "mix", "sub"); bad = [g.ch(-.1, 1.1, ulp(1.0, 1), -1e-7, 2.0, math.inf, -math.inf, 0., 1., .5, -0.0) for _ in range(2 if op == "add" else 1)]
            c = ok_calc(g, t, g.d[a]); s = outslot(g, a, b, c)
            g.emit(op, g.ch("base", "typed"), (s, a, c), (g.r.randrange(2),), bad)
        elif q < .58: g.emit("avg", g.pick(TYPES), (s,), (g.r.randrange(2),))
        elif q < .63:
            o = g.new(g.pick(TYPES)); g.emit("plus", "-", (62, a, g.pick([b, o])))
        elif q < .8:
            f = g.ch("combination", "analogous", "split", "monochromatic"); first = 50
            src = g.new("RGB_DEEP"); 
            for x in range(50, 65): g.t.pop(x, None)
            if src >= 50: continue
            if f == "combination": g.emit("comb", f, (src, first), (g.ch(-5, -1, 0, 1, 2, 361, 400, 100000, 3, 360, -2147483648, g.r.randrange(4, 12)),))
            elif f == "monochromatic": g.emit("comb", f, (src, first), (g.ch(-1, 0, 1, 2, 3, 99), g.ch(-1, 0, 1, 2, 3)), [g.ch(-.1, 0., .5, 1., 1.1, ulp(1., 1), -1e-9)])
            else: g.emit("comb", f, (src, first), (), [g.ch(0., 120., ulp(120., 1), 121., 200., 30., 1000., 119.9, 1e-3, -0.0)])
            for x in range(50, 65): g.t.pop(x, None)
        elif q < .88: g.emit(*g.ch(("get", "-", (a,), (g.ch(-1, NC[t], NC[t] + 3, 0, NC[t] - 1, 1000000, -1000000),)), ("gset", "-", (a,), (g.ch(-1, NC[t], NC[t] + 3, NC[t] - 1),), (.5,))))
        elif q < .9: g.emit("base", g.pick(TYPES), (61, a))
        else:
            kind = g.ch("mf", "mi", "md"); ms = {"mf": 1, "mi": 11, "md": 21}[kind] + g.r.randrange(4); r, c = g.r.randrange(1, 5), g.r.randrange(1, 5)
            g.emit(kind, "newi", (ms,), (r, c), (2.,)); f = g.ch("get", "cget", "set", "plus", "pluseq", "times")
            if f in ("get", "cget", "set"): g.emit(kind, f, (ms,), (g.ch(-1, 0, r - 1, r, r + 5), g.ch(-1, 0, c - 1, c, c + 5)), (1.,) if f == "set" else ())
            else:
                r2, c2 = g.r.randrange(1, 5), g.r.randrange(1, 5)
                if f != "times": r2, c2 = min(r2, r), min(c2, c)
                else: r2 = min(r2, c)
                g.emit(kind, "newi", (ms + 5,), (r2, c2), (3.,)); g.emit(kind, f, (ms + 4 if f != "pluseq" else ms,) + ((ms, ms + 5) if f != "pluseq" else (ms + 5,)))
        if g.p(.03): g.audit()
        yield
def c13(g):
    g.setup(3, 1)
    while True:
        a, b = pair(g)
        q0 = g.r.random()
        if q0 < .3: b = g.new(g.pick(TYPES))
        elif q0 < .4: b = g.slot(); g.emit("copy", "-", (b, a)); g.put(b, g.t[a], g.d[a])
        elif q0 < .45: b = a
        elif q0 < .52:
            t = g.pick(TYPES); c = g.comps(t); a = g.new(t, g.defs[0], c); b = g.new(t, g.pick(g.defs), c)
        if b not in g.t or a not in g.t: continue
        for _ in range(5):
            x, y = (a, b) if g.p(.5) else (b, a); q = g.r.random()
            if q < .2: g.emit("dist", "euclid2", (x, y), g.ch((), (g.r.randrange(15),)))
            elif q < .4: g.emit("dist", "euclid", (x, y), g.ch((), (g.r.randrange(15),), (11,)))
            elif q < .5: g.emit("dist", "weighted", (x, y))
            elif q < .62: g.emit("dist", "cie76", (x, y))
            elif q < .75: g.emit("dist", "cie94", (x, y), (), g.ch((), (2., .048, .014, 1., 1.), [g.r.uniform(.5, 2), g.r.uniform(0, .1), g.r.uniform(0, .1), g.r.uniform(.5, 2), g.r.uniform(.5, 2)]))
            elif q < .85: g.emit("dist", "cie00", (x, y), (), g.ch((), [g.r.uniform(.5, 2), .045, .015, g.r.uniform(.5, 2), g.r.uniform(.5, 2)]))
            else: g.emit("dist", "cmc", (x, y), (), g.ch((), (1., 1.), (2., 1.), [g.r.uniform(.5, 3), g.r.uniform(.5, 3)]))
        if g.p(.03): g.audit()
        yield
def c14(g):
    g.setup(3, 1)
    while True:
        for x in list(g.t): g.t.pop(x)
        g.nslot = 0
        for _ in range(3):
            g.nslot = 0; d = g.pick(g.defs); t = g.pick(TYPES)
            s = ok_calc(g, t, d)
            f = g.ch("complimentary", "triplet", "quartet", "quintet", "combination", "analogous", "monochromatic", "split")
            if f == "combination": g.emit("comb", f, (s, 5), (g.ch(2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 59, 60, 100, 360),))
            elif f == "monochromatic": g.emit("comb", f, (s, 5), (g.r.randrange(3), g.r.randrange(1, 9) if g.p(.85) else g.r.randrange(9, 33)), [g.ch(0., 1., .5, .1, .03, g.r.random() * .3)])
            elif f in ("analogous", "split"): g.emit("comb", f, (s, 5), (), [g.ch(30., 120., 1., 15., 60., -30., g.r.uniform(.1, 120))])
            else: g.emit("comb", f, (s, 5))
            if g.p(.2): g.audit()
            yield
def pct(g): return g.ch(0., 1., -1., .5, -.5, .1, 2., -2., g.r.uniform(-1.2, 3))
def c15(g):
    g.setup(3, 1)
    while True:
        d = g.pick(g.defs); t = g.pick(TYPES); s = ok_calc(g, t, d)
        for _ in range(3):
            o = outslot(g, s); f = g.ch("sat_rgb", "sat_hsl", "lum_rgb", "lum_hsl"); p = pct(g)
            g.emit("adj", f, (o, s), (), (p,)); g.put(o, t, d)
            if g.p(.7):
                c = outslot(g, s, o); g.emit("copy", "-", (c, s)); g.put(c, t, d); g.emit("adjr", f, (c,), (), (p,)); g.near(4, "-", o, c)
        if g.p(.04): g.audit()
        yield
def c16(g):
    g.setup(3, 3)
    for _ in range(14): g.wpreset()
    for w in ("A_2", "D65_2", "D50_2", "F11_2", "E_2"): g.wpreset(w)
    for _ in range(3): g.whalf()
    while True:
        d = g.pick(g.defs); t = g.pick(TYPES)
        s = ok_calc(g, t, d)
        if g.p(.12): s = g.new("RGB_DEEP", d, g.ch([1., 1., 1.], [0., 0., 0.]))
        for _ in range(3):
            o = outslot(g, s); f = g.pick(CATS); w = g.pick(g.wps)
            if g.p(.1) and g.dw[d]: w = g.dw[d]
            p = []
            if f in ("cmccat97", "cmccat2000", "cat02"):
                p = [g.ch(1., .9, .8, g.r.random()) if g.p(.8) else g.r.uniform(-.5, 3)]
                if g.p(.6): p.append(g.ch(100., 20., 60., 318., g.r.uniform(1, 300), g.r.uniform(1, 700)))
                if f == "cmccat2000" and len(p) == 2 and g.p(.6): p.append(g.r.uniform(10, 200))
            g.emit("adapt", f, (o, s), (w,), p); g.t.pop(o, None); g.d.pop(o, None)
        if g.p(.06): g.emit("adlum", "-", (), (), g.ch([g.r.uniform(0, 500)], [g.r.uniform(0, 500), g.r.uniform(0, 100)]))
        if g.p(.05): g.mutate_def()
        if g.p(.05): g.audit()
        yield
def geval(g, k):
    q = g.r.random()
    if q < .35 and g.parts: x = g.pick(g.parts)[1]
    elif q < .5: x = g.ch(0., 1., .5, 1.5, -.5, .25)
    else: x = g.r.random() * 1.1
    if q >= .35 and any(abs(x - b) < 1e-5 for _, b in g.parts): x += 3e-5
    g.emit("gmop", "eval", (), (k,), (x,))
def c17(g):
    for _ in range(6): g.wpreset()
    npre = 3
    for n in g.r.sample(GAMMAS, npre): g.gpreset(n)
    for _ in range(12): g.part()
    for _ in range(4): g.glist()
    g.emit("gm", "empty"); g.ng += 1; g.gms.append(g.ng)
    for n in ["sRGB"] + g.r.sample(PRESETS, 2): g.dpreset(n)
    user = [x for x in g.gms if x > npre]; size = {}
    for _ in range(2): g.dcustom()
    g.emit("def", "custom", (), (1, g.pick(user)), g.prims()); g.nd += 1; g.defs.append(g.nd); g.dw[g.nd] = 1
    loose = [g.part() for _ in range(3)]; g.parts = g.parts[:-3]
    while True:
        q = g.r.random(); k = g.pick(user)
        if q < .3: geval(g, k if g.p(.75) else g.ch(1, 2, 3, -g.pick(g.defs)))
        elif q < .38: g.emit("gmop", "round", (), (g.r.randrange(1, npre + 1),), (g.ch(0., 1., g.r.uniform(.05, 1), g.r.uniform(.05, 1)),))
        elif q < .5: g.emit("gmop", g.ch("add", "iadd"), (), (k, g.pick(g.parts)[0] if g.p(.95) else 0))
        elif q < .58: g.emit("gmop", g.ch("set", "iset"), (), [k] + g.somelist())
        elif q < .66:
            g.emit("gmop", g.ch("set", "iset"), (), [k] + g.somelist() + [g.pick(g.parts)[0]])
            # lists are at least one long here; index 0 always exists, larger ones may be the end
            l = [x for x, _ in g.r.sample(g.parts, g.r.randrange(2, 6))]
            if g.p(.3): l[g.r.randrange(len(l))] = 0
            i = g.ch("", "i"); g.emit("gmop", i + "set", (), [k] + l); g.emit("gmop", i + "remove", (), (k, g.r.randrange(len(l) + 1)))
        elif q < .69: g.emit("gmop", "assign", (), (k, g.pick(user)))
        elif q < .71: g.emit("gmop", "eq", (), (k, g.pick(user)))
        elif q < .74: g.glist() if g.ng < 40 else g.emit("gmop", "set", (), [k] + g.somelist())
        elif q < .75 and g.ng < 40: g.emit("gm", "copy", (), (g.pick(user),)); g.ng += 1; user.append(g.ng)
        elif q < .79: a = g.pick(g.parts)[0]; g.emit("gpcmp", "-", (), (a, g.pick(g.parts)[0] if g.p(.8) else a))
        elif q < .8 and g.np < 60:
            a = g.pick(g.parts)[0]; g.emit("gpart", "copy", (), (a,)); g.np += 1; g.emit("gpcmp", "-", (), (a, g.np))
            g.emit("gpborder", "-", (), (g.np,), (g.ch(g.r.random(), g.r.uniform(-.5, 2.5)),)); g.emit("gpcmp", "-", (), (a, g.np))
        elif q < .81: g.emit("gpassign", "-", (), (g.pick(loose), g.pick(loose)))
        elif q < .82: x = g.pick(loose); g.emit("gpborder", "-", (), (x,), (g.ch(g.r.random(), g.r.uniform(-.5, 2.5)),))
        else:
            t = g.pick(["RGB_DEEP", "RGB_TRUE", "GREY_DEEP", "CMYK", "HSV", "XYZ", "LAB", "GREY_TRUE"])
            c = [g.r.random() * 1.2 for _ in range(NC[t])] if g.p(.6) else g.comps(t)
            c = [x if all(abs(f32(x) - b) > 2e-5 for _, b in g.parts) else x + .00013 for x in c]
            s = g.new(t, g.pick(g.defs), c); g.emit(g.ch("cgam", "cigam"), "-", (s,)); g.t.pop(s, None)
        yield
def small(g, kind, n, sq=0):
    if kind != "mi" and sq >= 4: return [g.r.randrange(-4, 5) / 2 for _ in range(n)] if g.p(.4) else [float(g.r.randrange(-5, 6)) for _ in range(n)]
    if kind == "mi": return [float(g.r.randrange(-6, 7)) for _ in range(n)]
    if g.p(.6): return [float(g.r.randrange(-6, 7)) for _ in range(n)]
    return [g.r.randrange(-40, 41) / 8 for _ in range(n)]
def c18(g):
    base = {"mf": 0, "mi": 100, "md": 200}; shp = {}
    def mk(kind, r=None, c=None):
        s = base[kind] + g.r.randrange(1, 13); r = r or g.r.randrange(1, 6); c = c or (r if g.p(.4) else g.r.randrange(1, 6)); q = g.r.random()
        if q < .6:
            v = small(g, kind, r * c, r if r == c else 0)
            if g.p(.15) and r > 1: v[c:2 * c] = v[:c]
            if g.p(.1): v[:c] = [0.] * c
            if r == c and g.p(.3): g.emit(kind, "newsqd", (s,), (r,), v)
            else: g.emit(kind, "newd", (s,), (r, c), v if g.p(.93) else v[:-1])
        elif q < .7: g.emit(kind, "newi", (s,), (r, c), (float(g.r.randrange(-5, 6)),))
        elif q < .75: g.emit(kind, "new", (s,), (r, c))
        elif q < .8: c = r; g.emit(kind, "newsq", (s,), (r,))
        elif q < .85: c = r; g.emit(kind, "newid", (s,), (r,))
        else:   # unimodular: product of elementary matrices
            n = c = r
            m = [[float(i == j) for j in range(n)] for i in range(n)]
            for _ in range(4):
                i, j = g.r.randrange(n), g.r.randrange(n)
                if i != j:
                    f = g.r.randrange(-2, 3); m[i] = [x + f * y for x, y in zip(m[i], m[j])]
            g.emit(kind, "newsqd", (s,), (n,), [x for row in m for x in row])
            g.emit(kind, "invert", (base[kind] + 20,), (), ()) if False else None
            uni.add(s)
            shp[s] = (r, c); return s
        uni.discard(s); shp[s] = (r, c); return s
    uni = set()
    for k in base:
        for _ in range(5): mk(k)
    while True:
        kind = g.ch("mf", "mf", "mi", "md"); b = base[kind]; ss = [s for s in shp if b < s <= b + 12]
        if len(ss) < 4 or g.p(.15): mk(kind); yield; continue
        if kind != "mi" and g.p(.05):   # numbers close to zero are not zero
            n = g.r.randrange(1, 5); m = g.r.randrange(1, 4); v = [g.ch(0., 0., 3e-7, -3e-7, 1e-9, 1.) for _ in range(n * m)]; i = g.r.randrange(n); v[i * m:i * m + m] = [g.ch(0., 0., 1e-7, -2e-8) for _ in range(m)]
            g.emit(kind, "newd", (b + 16,), (n, m), v); g.emit(kind, "rownull", (b + 16,), (i,)); g.emit(kind, "colnull", (b + 16,), (g.r.randrange(m),))
            if g.p(.5): g.emit(kind, "transpose", (b + 17, b + 16)); g.emit(kind, "colnull", (b + 17,), (i,)); g.emit(kind, "set", (b + 17,), (0, i), (0.,)); g.emit(kind, "rownull", (b + 17,), (0,))
            yield; continue
        a = g.pick(ss); r, c = shp[a]; o = b + 13 + g.r.randrange(3); q = g.r.random()
        if q < .1:
            x = mk(kind, r, c); 
            if x != a and shp[a] == shp[x]: g.emit(kind, g.ch("plus", "minus"), (o, a, x))
        elif q < .16:
            x = mk(kind, r, c)
            if x != a and shp[a] == shp[x]: g.emit(kind, g.ch("pluseq", "minuseq"), (a, x)); uni.discard(a)
        elif q < .3:
            x = mk(kind, c, g.r.randrange(1, 6))
            if shp[a][1] == shp[x][0]:
                if g.p(.8) or shp[x][1] != c: g.emit(kind, "times", (o, a, x))
                else: g.emit(kind, "copy", (o, a)); g.emit(kind, "timeseq", (o, x))
        elif q < .34: g.emit(kind, g.ch("splus", "sminus", "stimes"), (o, a), (), (float(g.r.randrange(-5, 6)),))
        elif q < .37: g.emit(kind, "sdiv", (o, a), (), (float(g.ch(1, 2, -2, 4, 5, 3)),))
        elif q < .42: g.emit(kind, "vec", (a,), (), small(g, kind, c))
        elif q < .5: g.emit(kind, "transpose", (o, a))
        elif q < .57 and (r, c) != (5, 5): g.emit(kind, "adjoint", (o, a))
        elif q < .68:
            if kind != "mi" or a in uni or r != c:
                g.emit(kind, "invert", (o, a))
        elif q < .78: g.emit(kind, "det", (a,))
        elif q < .81: g.emit(kind, "fill", (a,), (), (float(g.r.randrange(-3, 4)),)); uni.discard(a)
        elif q < .84: g.emit(kind, "insert", (a,), (), small(g, kind, r * c if g.p(.8) else r * c + g.ch(-1, 1), r if r == c else 0)); uni.discard(a)
        elif q < .89:
            r2, c2 = g.r.randrange(1, 7), g.r.randrange(1, 7); g.emit(kind, "copy", (o, a)); g.emit(kind, "resize", (o,), (r2, c2), () if g.p(.4) else (float(g.r.randrange(-3, 4)),))
        elif q < .92: g.emit(kind, g.ch("get", "cget"), (a,), (g.r.randrange(-1, r + 1), g.r.randrange(-1, c + 1)))
        elif q < .94: g.emit(kind, "set", (a,), (g.r.randrange(-1, r + 1), g.r.randrange(-1, c + 1)), (float(g.r.randrange(-9, 9)),)); uni.discard(a)
        elif q < .96: x = g.pick(ss); g.emit(kind, "eq", (a, x)); g.emit(kind, "copy", (o, a)); g.emit(kind, "eq", (o, a))
        elif q < .98: g.emit(kind, *g.ch(("rownull", (a,), (g.r.randrange(r + 1),)), ("colnull", (a,), (g.r.randrange(c + 1),)), ("roweq", (a,), (g.r.randrange(r + 1), g.r.randrange(r))), ("coleq", (a,), (g.r.randrange(c + 1), g.r.randrange(c)))))
        elif q < .99: x = g.pick(ss); g.emit(kind, "assign", (a, x)); shp[a] = shp[x]; uni.discard(a)
        else: g.emit(kind, "shape", (a,))
        yield
def c19(g):
    for w in g.r.sample(WPS, 10): g.wpreset(w)
    for n in g.r.sample(GAMMAS, 4): g.gpreset(n)
    for n in PRESETS + ["cieXYZ"]: g.dpreset(n)
    for d in list(g.defs):
        for x in (.02, .3, .85): g.emit("gmop", "eval", (), (-d, 0), (x,))
    g.defs = g.r.sample(g.defs[:-1], 6)
    while True:
        q = g.r.random(); d = g.pick(g.defs)
        if q < .3 and g.nd < 90: g.dcustom()
        elif q < .65: w = g.pick(g.wps); g.emit("setwp", "-", (), (d, w)); g.dw[d] = w
        elif q < .75 and g.nd < 90: g.emit("def", "copy", (), (d,)); g.nd += 1; g.defs.append(g.nd); g.dw[g.nd] = g.dw[d]
        elif q < .8: g.emit("setgm", "-", (), (d, g.pick(g.gms)))
        elif q < .85: r = g.r; g.emit("wp", g.ch("chr", "chr"), (), (), [r.uniform(.25, .45), r.uniform(.28, .42)]); g.nw += 1; g.wps.append(g.nw)
        elif q < .9: g.emit("wp", "tri", (), (), [g.r.uniform(.8, 1.15), g.ch(1., 1., g.r.uniform(.5, 1.5)), g.r.uniform(.3, 1.3)]); g.nw += 1; g.wps.append(g.nw)
        elif q < .92: g.whalf()
        elif q < .95: s = g.new("RGB_DEEP", d); g.emit("adapt", g.pick(["bradford_s", "von_kries", "cat02_s"]), (outslot(g, s), s), (g.pick(g.wps),))
        else: g.audit()
        yield
NAMES = None
def names():
    global NAMES
    if NAMES is None:
        import re, os
        src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla")).read()
        NAMES = re.findall(r'\("(\w+)" :> <<\d+, \d+, \d+, \d+>>', src.split("Whites ==")[0])
    return NAMES
def c20(g):
    for w in WPS: g.wpreset(w)
    for n in g.r.sample(GAMMAS, 3): g.gpreset(n)
    for n in ["sRGB"] + g.r.sample(PRESETS[1:], 2): g.dpreset(n)
    g.dcustom()
    todo = list(names()); g.r.shuffle(todo)
    while True:
        if not todo: todo = list(names()); g.r.shuffle(todo)
        g.emit("named", todo.pop(), (1,), (g.pick(g.defs),))
        r = g.r
        if g.p(.5):
            x, y = r.uniform(.2, .5), r.uniform(.2, .45); Y = g.ch(1., r.uniform(.3, 2), 10 ** r.uniform(-.5, 2.5)); X, Z = x / y * Y, (1 - x - y) / y * Y; q = r.random()
            if q < .25: g.emit("wp", "tri", (), (), [X, Y, Z]); g.nw += 1
            elif q < .5: g.emit("wp", "chr", (), (), [x, y]); g.nw += 1
            elif q < .65: g.emit("wp", g.ch("full", "fulla"), (), (), [X, Y, Z, x, y]); g.nw += 1
            elif q < .7: g.emit("wp", "copy", (), (r.randrange(1, g.nw + 1),)); g.nw += 1; g.emit("wpeq", "-", (), (g.nw, r.randrange(1, g.nw + 1)))
            elif q < .8: a = r.randrange(1, g.nw + 1); g.emit("wpeq", "-", (), (a, g.ch(a, r.randrange(1, g.nw + 1))))
            elif q < .9: g.emit("t2c", "-", (), (), [X, Y, Z])
            else: g.emit("c2t", "-", (), (), g.ch([x, y, 1 - x - y], [x, y, 1 - x - y, 10 ** r.uniform(-3, 2.5)]))
        yield

def c21(g):
    """few colors, few calls, over and over: with twins, after changes of operands, results and definitions and back"""
    for w in 2 * g.r.sample(WPS, 4): g.wpreset(w)    # with twins
    for _ in range(3): g.gpreset()
    for n in ["sRGB"] + g.r.sample(PRESETS[1:], 2): g.dpreset(n)
    g.dcustom(); own = []
    for d in list(g.defs): g.emit("def", "copy", (), (d,)); g.nd += 1; g.defs.append(g.nd); own.append(g.nd); g.dw[g.nd] = g.dw[d]
    def out(): return 40 + g.r.randrange(12)
    def call(t):
        q = g.r.random(); x = g.pick(TYPES)
        if q < .24: return lambda a, b: g.emit("conv", x, (out(), a), (0,)), None
        if q < .28: k = (g.r.randrange(2), g.r.randrange(2), g.r.randrange(7)); return lambda a, b: g.emit("blend", "custom", (out(), a, b), k), 1
        if q < .38: f = g.pick(SEP + HCYM + HCYM); fl = g.ch((2, 2), (0, 0), (0, 1), (1, 0)); return lambda a, b: g.emit("blend", f, (out(), a, b), fl), 1
        if q < .46: f = g.pick(PDS); return lambda a, b: g.emit("pd", f, (out(), a, b)), 1
        if q < .58:
            op = g.ch("add", "mix", "sub"); f = g.ch("typed", "base"); k = g.ch(0, 1, 2); ps = [weight(g) for _ in range(2 if op == "add" else 1)]
            return lambda a, b: g.emit(op, f if g.t[a] == g.t[b] else "base", (out(), a, b), (k,), ps), 1
        if q < .62: k = g.r.randrange(2); l = g.r.choices((0, 1), k=g.ch(2, 3, 4, 6, 12)); return lambda a, b: g.emit("avg", g.t[a], [out()] + [(a, b)[i if g.t[a] == g.t[b] else 0] for i in l], (k,)), 1
        if q < .7: f = g.ch("sat_rgb", "sat_hsl", "lum_rgb", "lum_hsl"); p = pct(g); return lambda a, b: g.emit("adj", f, (out(), a), (), (p,)), None
        if q < .8:
            f = g.pick(CATS); i = g.r.randrange(4); p = [g.ch(1., .8, .3)] if f in ("cmccat97", "cmccat2000", "cat02") else []
            return lambda a, b: g.emit("adapt", f, (out(), a), (g.ch(g.wps[i], g.wps[i + 4]),), p), None
        if q < .92: f, p = g.ch(("euclid2", ()), ("euclid", ()), ("weighted", ()), ("cie76", ()), ("cie94", ()), ("cie94", (2., .048, .014, 1., 1.)), ("cie00", ()), ("cmc", ()), ("cmc", (1., 1.))); return lambda a, b: g.emit("dist", f, (a, b), (), p), None
        if q < .97: f, k, p = g.ch(("complimentary", (), ()), ("triplet", (), ()), ("quartet", (), ()), ("quintet", (), ()), ("combination", (5,), ()), ("combination", (10,), ()), ("analogous", (), (30.,)), ("split", (), (45.,)), ("monochromatic", (1, 4), (.1,)), ("monochromatic", (0, 9), (.05,)), ("monochromatic", (2, 3), (.2,))); return lambda a, b: g.emit("comb", f, (a, 52), k, p), None
        f, p = g.ch(("t2c", [.9, 1., .8]), ("t2c", [.4, .5, .2]), ("c2t", [.31, .33, .36]), ("c2t", [.31, .33, .36, 1.5])); return lambda a, b: g.emit(f, "-", (), (), p), None
    n = 0
    while True:
        # a cast of colors 1..6 with values kept in 11..16, twins in 21..26
        cast = range(1, 7); alt = {}
        g.keep = ()
        t0 = g.pick(TYPES)
        for i in cast:
            g.nslot = i - 1; s = g.new(t0 if i < 4 else g.pick(TYPES), g.pick(g.defs)); assert s == i
        for i in cast:
            for o in (10, 20): g.emit("copy", "-", (i + o, i)); g.put(i + o, g.t[i], g.d[i])
            alt[i] = [g.scale(g.t[i], 1) * 0 + c for c in g.comps(g.t[i])]
        calls = [call(t0) for _ in range(g.r.randrange(3, 9))]
        for _ in range(g.r.randrange(60, 140)):
            q = g.r.random(); i = g.pick(cast); j = g.pick(cast)
            if q < .62:
                f, same = g.pick(calls)
                a = i + g.ch(0, 0, 20); b = j + g.ch(0, 0, 20)
                if a == b and same: b = i + (20 if a == i else 0)
                if same and g.d[a] != g.d[b]: b = a + 20 if a == i else i
                f(a, b)
            elif q < .72: n2 = g.r.randrange(NC[g.t[i]]); g.emit("gset", "-", (i,), (n2,), (alt[i][n2],))
            elif q < .76: g.emit("alpha", "-", (i,), (), (g.scale(g.t[i], g.ch(0., .5, 1., .995, .02, g.r.random())),))
            elif q < .86: g.emit("bassign", "-", (i, i + 10)); g.d[i] = g.d[i + 10]
            elif q < .9: d = g.pick(own); w = g.pick(g.wps); g.emit("setwp", "-", (), (d, w))
            elif q < .92: g.emit("setgm", "-", (), (g.pick(own), g.pick(g.gms)))
            elif q < .94: f = g.ch("cgam", "cigam", "amul", "adiv"); s = 60 + g.r.randrange(3); g.emit("copy", "-", (s, i)); g.emit(f, "-", (s,))
            elif q < .955: s = 60 + g.r.randrange(3); g.emit("copy", "-", (s, i)); g.emit("adjr", g.ch("sat_rgb", "lum_rgb", "sat_hsl", "lum_hsl"), (s,), (), (g.ch(.3, -.3),))
            elif q < .965: g.emit("named", g.pick(names()), (40,), (g.pick(g.defs),))
            elif q < .975: d = g.pick(g.defs); g.emit("setdef", "-", (i,), (d,)); g.d[i] = d
            elif q < .985: g.emit("audit")
            else: d = g.pick(g.defs); s = 60 + g.r.randrange(3); g.emit("new", "RGB_DEEP", (s,), (d,), [.3, .6, .1, .5]); g.emit("hexs", "-", (s,), (d,), (), g.ch("#12ab9f", "8012ab9f"))
        g.emit("audit"); yield
def whites():
    import re, os
    s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla")).read()
    return {n: [int(x) / 1e6 for x in v.split(",")] for n, v in re.findall(r'\("(\w+)" :> <<(\d+, \d+, \d+, \d+, \d+)>>\)', s[s.index("Whites =="):])}
WHITE = whites()
PROFILES = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}
def gen(prop, seed, n):
    g = G("%s/%s" % (prop, seed)); it = PROFILES[prop](g)
    while len(g.out) < n: next(it)
    g.audit()
    return g.out
if __name__ == "__main__":
    import sys
    print("\n".join(gen(sys.argv[1], sys.argv[2], int(sys.argv[3]))))
