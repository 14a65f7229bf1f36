"""The columns of every line format: which field each column fills and which error names it.
One table, used by the checks on error labels (C03), column order (C04) and time offsets (C06)."""
import itertools
from fractions import Fraction
import an, lines, rt
from an import *


class Col:
    """a column: hole name, label of its invalid / missing error, fields filled from it"""

    def __init__(self, name, inv=None, miss=None, fields=(), opt=False):
        self.name, self.inv, self.miss, self.fields, self.opt = name, inv, miss, list(fields), opt
        self.sep = ","


class Form:
    def __init__(self, T, head, cols, vers=(3, 14), label=None, K=1, tail="", also=(), first_sep=None, cut=True, loose=False):
        self.T, self.head, self.cols, self.vers = "osu_file::" + T, head, cols, vers
        self.K, self.tail, self.also, self.cut = K, tail, set(also), cut
        self.label = label or T.rsplit("::", 1)[-1]
        self.first_sep, self.loose = first_sep, loose

    def text(self, n=None):
        """the line with its first n columns"""
        t = self.head
        first = True
        for c in self.cols[:n]:
            if not (first and not self.head):
                t += c.sep
            first = False
            t += c.lit if getattr(c, "lit", None) is not None else "{%s%s}" % (c.name, c.hole)
        return t + (self.tail if n is None or n == len(self.cols) else "")

    def name(self):
        return "%s:%s" % (self.label, self.head) if self.head else self.label


def C(name, inv=None, miss=None, *fields, opt=False, sep=",", hole="", lit=None):
    c = Col(name, inv, miss, fields, opt)
    c.sep, c.hole, c.lit = sep, hole, lit
    return c


HO = "hitobjects::HitObject"
CMD = "events::storyboard::cmds::Command"
NE = "events::normal_event::"


def forms():
    out = []

    def add(*a, **k):
        out.append(Form(*a, **k))
    # ---- events
    for T, heads in (("Background", ("0",)), ("Video", ("1", "Video"))):
        for h in heads:
            st = C("start", "InvalidStartTime", "MissingStartTime", ("start_time", "num24" if T == "Video" else "num"))
            fn = C("file", None, "MissingFileName", ("file_name", "path"))
            add(NE + T, h, [st, fn], cut=True)
            add(NE + T, h, [st, fn, C("px", "InvalidX", "MissingX", ("position.?.x", "dec"), opt=True),
                            C("py", "InvalidY", "MissingY", ("position.?.y", "dec"))])
    for h in ("2", "Break"):
        add(NE + "Break", h, [C("start", "InvalidStartTime", "MissingStartTime", ("start_time", "num24")),
                              C("end", "InvalidEndTime", "MissingEndTime", ("end_time", "num24"))])
    add(NE + "ColourTransformation", "3",
        [C("start", "InvalidStartTime", "MissingStartTime", ("start_time", "num24")),
         C("red", "InvalidRed", "MissingRed", ("red", "num")), C("green", "InvalidGreen", "MissingGreen", ("green", "num")),
         C("blue", "InvalidBlue", "MissingBlue", ("blue", "num"))])
    for T, h in (("SpriteLegacy", "4"), ("AnimationLegacy", "5")):
        add(NE + T, h, [C("layer", "InvalidLayer", "MissingLayer", ("layer", "lv")),
                        C("origin", "InvalidOrigin", "MissingOrigin", ("origin", "lv")),
                        C("file", None, "MissingFileName", ("file_name", "path")),
                        C("px", "InvalidX", "MissingX", ("position.?.x", "dec"), opt=True),
                        C("py", "InvalidY", "MissingY", ("position.?.y", "dec"))])
    add(NE + "SampleLegacy", "6",
        [C("time", "InvalidTime", "MissingTime", ("time", "dec")), C("layer", "InvalidLayer", "MissingLayer", ("layer", "lv")),
         C("file", None, "MissingFileName", ("file_name", "path")),
         C("volume", "InvalidVolume", "MissingVolume", ("volume.?", "lv"), opt=True)])
    add("events::audio_sample::AudioSample", "Sample",
        [C("time", "InvalidTime", "MissingTime", ("time", "num")), C("layer", "InvalidLayer", "MissingLayer", ("layer", "dep")),
         C("file", None, "MissingFilepath", ("filepath", "path")),
         C("volume", "InvalidVolume", "MissingVolume", ("volume", "lv"), opt=True)])
    sp = [C("layer", "InvalidLayer", "MissingLayer", ("layer", "lv")),
          C("origin", "InvalidOrigin", "MissingOrigin", ("origin", "lv"))]
    pos = [C("px", "InvalidPositionX", "MissingPositionX", ("position.x", "dec")),
           C("py", "InvalidPositionY", "MissingPositionY", ("position.y", "dec"))]
    O = "events::storyboard::sprites::Object"
    add(O, "Sprite", sp + [C("file", None, "MissingFilePath", ("object_type.Sprite.0.filepath", "path"))] + pos)
    A = "object_type.Animation.0."
    add(O, "Animation", sp + [C("file", None, "MissingFilePath", (A + "filepath", "path"))] + pos +
        [C("count", "InvalidFrameCount", "MissingFrameCount", (A + "frame_count", "num")),
         C("delay", "InvalidFrameDelay", "MissingFrameDelay", (A + "frame_delay", "rdec")),
         C("loop", "InvalidLoopType", "MissingLoopType", (A + "loop_type", "lv"), opt=True)])
    # ---- timing points
    T = "timingpoints::TimingPoint"
    tp = [C("time", "InvalidTime", None, ("time", "dec24")), C("beat", None, "MissingBeatLength", ("beat_length", "dec")),
          C("meter", "InvalidMeter", "MissingMeter", ("meter", "num")),
          C("set", "InvalidSampleSet", "MissingSampleSet", ("sample_set", "lv")),
          C("index", "InvalidSampleIndex", "MissingSampleIndex", ("sample_index", "lv"))]
    vol = C("volume", "InvalidVolume", "MissingVolume", ("volume", "lv"))
    volo = C("volume", "InvalidVolume", "MissingVolume", ("volume", "lv"), opt=True)
    unin = C("unin", "InvalidUninherited", "MissingUninherited", ("uninherited.?", "dep"))
    unino = C("unin", "InvalidUninherited", "MissingUninherited", ("uninherited.?", "dep"), opt=True)
    eff = C("effects", "InvalidEffects", "MissingEffects", ("effects.?", "lv"))
    effo = C("effects", "InvalidEffects", "MissingEffects", ("effects.?", "lv"), opt=True)
    add(T, "", tp[:2], (3, 3), label="TimingPoint v3")
    add(T, "", tp + [volo], (4, 4), label="TimingPoint v4")
    add(T, "", tp + [vol, unino, effo], (5, 5), label="TimingPoint v5")
    add(T, "", tp + [vol, unino, eff], (6, 14), label="TimingPoint v6-14")
    # ---- hit objects
    def ho(bits):
        return [C("x", "InvalidX", None, ("position.x", "dec"), hole=":|"), C("y", "InvalidY", "MissingY", ("position.y", "dec"), hole=":|"),
                C("time", "InvalidTime", "MissingTime", ("time", "dec24")),
                C("type", "InvalidObjType", "MissingObjType", lit=bits),
                C("hs", "InvalidHitSound", "MissingHitSound", ("hitsound", "lv"))]
    samp = C("sample", "InvalidHitSample", "MissingHitSample", ("hitsample.?", "lv"), opt=True, hole="*")
    for bits in ("1", "5"):
        add(HO, "", ho(bits) + [samp], label="HitCircle" + bits)
    for bits in ("8", "12"):
        add(HO, "", ho(bits) + [C("end", "InvalidEndTime", "MissingEndTime", ("obj_params.Spinner.end_time", "dec24")), samp],
            label="Spinner" + bits)
    hsamp = C("sample", "InvalidHitSample", "MissingHitSample", ("hitsample.?", "lv"), opt=True, hole="*", sep=":")
    add(HO, "", ho("128") + [C("end", "InvalidEndTime", "MissingEndTime", ("obj_params.OsuManiaHold.end_time", "dec24"), hole="::"),
                             hsamp], label="Hold")
    S = "obj_params.Slider.0."
    for v in ((3, 3), (4, 14)):
        first = v == (3, 3)
        pts = []
        for n in (1, 2, 3):
            pts.append(C("p%d" % n, "InvalidCurvePoint", "MissingCurvePoint",
                         *([] if first and n == 1 else [(S + "curve_points.[%d]" % (n - 1 - first), "lv")]), sep="|", hole=":|", opt=True))
        curve = C("curve", "InvalidCurveType", "MissingCurveType", (S + "curve_type", "lv"), hole=":|")
        tail = [C("slides", "InvalidSlidesCount", "MissingSlidesCount", (S + "slides", "num")),
                C("length", "InvalidLength", "MissingLength", (S + "length", "dec"))]
        es = [C("es1", "InvalidEdgeSound", "MissingEdgeSound", (S + "edge_sounds.[0]", "lv"), opt=True, hole=":|"),
              C("es2", "InvalidEdgeSound", None, (S + "edge_sounds.[1]", "lv"), sep="|", hole=":|", opt=True)]
        ss = [C("et1", "InvalidEdgeSet", "MissingEdgeSet", (S + "edge_sets.[0]", "lv"), opt=True, hole=":|"),
              C("et2", "InvalidEdgeSet", None, (S + "edge_sets.[1]", "lv"), sep="|", hole=":|", opt=True)]
        l = "Slider v3" if first else "Slider"
        add(HO, "", ho("2") + [curve] + pts[:2] + tail + [es[0]], v, label=l)
        add(HO, "", ho("6") + [curve] + pts[:1] + tail + es, v, label=l + " sounds", cut=False)
        add(HO, "", ho("2") + [curve] + pts[:1] + tail + es[:1] + ss + [samp], v, label=l + " sets")
        if not first:
            add(HO, "", ho("2") + [curve] + pts[:3] + tail, v, label=l + " points", cut=False)
    # ---- parts of hit objects, variables
    add("hitobjects::types::EdgeSet", "", [C("one", "InvalidFirstItem", None, ("normal_set", "lv"), hole="::"),
                                           C("two", "InvalidSecondItem", "MissingSeparator", ("addition_set", "lv"), sep=":", hole="::")])
    add("hitobjects::types::CurvePoint", "", [C("one", "InvalidFirstItem", None, ("0.x", "dec"), hole="::"),
                                              C("two", "InvalidSecondItem", "MissingSeparator", ("0.y", "dec"), sep=":", hole="::")])
    add("hitobjects::types::HitSample", "",
        [C("normal", "InvalidSampleSet", None, ("normal_set", "lv"), hole="::", opt=True)] +
        [C(n, i, None, (f, k), sep=":", hole="::", opt=True) for n, i, f, k in (
            ("addition", "InvalidSampleSet", "addition_set", "lv"), ("index", "InvalidIndex", "index", "lv"),
            ("volume", "InvalidVolume", "volume", "lv"), ("filename", None, "filename", "str"))])
    add("osb::types::Variable", "$", [C("name", None, None, ("name", "str"), sep="", hole=":="),
                                      C("value", None, "MissingEquals", ("value", "str"), sep="=")], (14, 14))
    # ---- colours
    c3 = []
    for i, N in enumerate(("Red", "Green", "Blue")):
        c3.append(C(N.lower(), "Invalid" + N, "Missing" + N if i else None, (N.lower(), "num"), hole=": \t\x0b\x0c\u2003"))
    add("colours::types::Rgb", "", c3, label="Rgb", loose=True)
    for head, var, k in (("SliderTrackOverride : ", "SliderTrackOverride", 0), ("SliderBorder : ", "SliderBorder", 0),
                         ("Combo7 : ", "Combo", 1)):
        add("colours::Colour", head, [C("rgb", None, None, ("%s.%d" % (var, k), "lv"), sep="", hole=": \t\x0b\x0c\u2003")])
    # ---- storyboard commands
    def cmd(h, var, cols):
        P = "properties.%s." % var
        base = [C("easing", "InvalidEasing", "MissingEasing", (P + "easing", "cv")),
                C("start", "InvalidStartTime", "MissingStartTime", ("start_time.?", "optnum")),
                C("end", "InvalidEndTime", "MissingEndTime", (P + "end_time.?", "optnum"))]
        cc = []
        for c in cols:
            d = C(c.name, c.inv, c.miss, *[(P + p, k) for p, k in c.fields], opt=c.opt)
            cc.append(d)
        add(CMD, h, base + cc, label="Command", K=3)
    for h, var, f, more, N, M in (("F", "Fade", "start_opacity", "continuing_opacities", "StartOpacity", "ContinuingOpacities"),
                                  ("MX", "MoveX", "start_x", "continuing_x", "MoveX", "ContinuingMove"),
                                  ("MY", "MoveY", "start_y", "continuing_y", "MoveY", "ContinuingMove"),
                                  ("S", "Scale", "start_scale", "continuing_scales", "StartScale", "ContinuingScale"),
                                  ("R", "Rotate", "start_rotation", "continuing_rotations", "StartRotation", "ContinuingRotation")):
        cmd(h, var, [C("v", "Invalid" + N, "Missing" + N, (f, "dec"))] +
            [C("v%d" % i, "Invalid" + M, None, ("%s.[%d]" % (more, i), "dec"), opt=True) for i in range(2)])
    for h, var, f, N, M in (("M", "Move", "positions_xy", "Move", "ContinuingMove"), ("V", "VectorScale", "scales_xy", "Scale", "ContinuingScales")):
        cmd(h, var, [C("x", "Invalid%sX" % N, "Missing%sX" % N, (f + ".start.0", "dec")),
                     C("y", "Invalid%sY" % N, "Missing%sY" % N, (f + ".start.1", "dec")),
                     C("x1", "Invalid" + M, None, (f + ".continuing.[0].0", "dec"), opt=True),
                     C("y1", "Invalid" + M, None, (f + ".continuing.[0].1.?", "dec"), opt=True),
                     C("x2", "Invalid" + M, None, (f + ".continuing.[1].0", "dec"), opt=True)])
    cc = []
    for i, N in enumerate(("Red", "Green", "Blue")):
        cc.append(C(N.lower(), "Invalid" + N, "Missing" + N, ("colours.start.%d" % i, "num")))
    for i in range(3):
        cc.append(C("c%d" % i, "InvalidContinuingColours", None, ("colours.continuing.[0].%d%s" % (i, ".?" if i else ""), "num"), opt=True))
    cc.append(C("d0", "InvalidContinuingColours", None, ("colours.continuing.[1].0", "num"), opt=True))
    cmd("C", "Colour", cc)
    cmd("P", "Parameter", [C("p", "InvalidParameterType", "MissingParameterType", ("parameter", "lv")),
                           C("p1", "InvalidContinuingParameters", None, ("continuing_parameters.[0]", "lv"), opt=True)])
    add(CMD, "L", [C("start", "InvalidStartTime", "MissingStartTime", ("start_time.?", "optnum")),
                   C("count", "InvalidLoopCount", "MissingLoopCount", ("properties.Loop.loop_count", "num"))], label="Command")
    P = "properties.Trigger."
    add(CMD, "T", [C("trigger", "InvalidTriggerType", "MissingTriggerType", (P + "trigger_type", "lv")),
                   C("start", "InvalidStartTime", None, ("start_time.?", "optnum"), opt=True),
                   C("end", "InvalidEndTime", None, (P + "end_time.?", "optnum"), opt=True),
                   C("group", "InvalidGroupNumber", None, (P + "group_number.?", "optnum"), opt=True)], label="Command")
    return out


# ------------------------------------------------------------------ column facts of an outcome
def overlap(st, a, b):
    a, b = st.norm(a), st.norm(b)
    return a == b


class Info:
    """what a path says about one column: decisions on its text, interval of its number,
    its shape"""

    def __init__(self, ex, st, col):
        c = st.norm((Atom(col.name),)) if col.lit is None else (col.lit,)
        self.segs = c
        self.dec = {}
        names = set()
        for x in st.cons:
            if x[0] == "leaf":
                s = st.norm(x[1])
                if s == c or st.norm(x[3]) == c:
                    self.dec[("leaf", x[2][0])] = x[2][2]
            elif x[0] == "parse" and st.norm(x[1]) == c:
                self.dec[("parse", x[2])] = x[3]
            elif len(x) > 3 and isinstance(x[1], tuple) and st.norm(x[1]) == c:
                try:
                    self.dec[(x[0], x[2])] = x[3]
                except TypeError:
                    pass
        iv = [v for k, v in st.d.items() if k[0] == "iv" and isinstance(k[1], tuple) and len(k[1]) == 2 and k[1][0] == "num"
              and st.norm(k[1][1]) == c]
        self.iv = iv[0] if iv else None
        self.shape = [x if isinstance(x, str) else st.af(x) for x in c]

    def mask(self):
        m = 0
        for x in self.shape:
            if isinstance(x, str):
                m |= mask(x)
            else:
                m |= x.m
        return m

    def minlen(self):
        return sum(len(x) if isinstance(x, str) else x.min for x in self.shape)


def compatible(a, b):
    """can one text satisfy both descriptions?  (True also when not known)"""
    for k, w in a.dec.items():
        if k in b.dec and b.dec[k] != w:
            return False
    if a.iv is not None and b.iv is not None:
        lo, hi = max(a.iv[0], b.iv[0]), min(a.iv[1], b.iv[1])
        if lo > hi:
            return False
        ex = (a.iv[2] if len(a.iv) > 2 else frozenset()) | (b.iv[2] if len(b.iv) > 2 else frozenset())
        if hi - lo < 300 and all(x in ex for x in range(lo, hi + 1)):
            return False
    if all(isinstance(x, str) for x in a.shape) and all(isinstance(x, str) for x in b.shape):
        return "".join(a.shape) == "".join(b.shape)
    for p, q in ((a, b), (b, a)):
        if all(isinstance(x, str) for x in p.shape):
            t = "".join(p.shape)
            if mask(t) & ~q.mask() or len(t) < q.minlen():
                return False
    if a.minlen() and not (a.mask() & b.mask()) or b.minlen() and not (a.mask() & b.mask()):
        return False
    return True


# ------------------------------------------------------------------ field access
class Missing(Exception):
    pass


def get(ex, st, v, path):
    """value at a field path; None where an optional is absent, the list is too short or the
    value is of another variant"""
    names = None
    for p in path.split("."):
        if names is not None:
            if p not in names:
                raise Missing(path)
            v, names = v.f[names.index(p)], None
            continue
        v = ex.deref(st, v)
        if p.startswith("["):
            i = int(p[1:-1])
            if not isinstance(v, Seq):
                raise Missing(path)
            v = ex.norm_seq(st, v)
            if i >= len(v.it):
                if v.tail is not None:
                    raise Missing(path)
                return None
            v = v.it[i]
            continue
        if not isinstance(v, Adt):
            raise Missing(path)
        t = ex.T[v.ty] if isinstance(v.ty, int) and v.ty >= 0 else {"k": "tuple"}
        if t["k"] != "adt":
            v = v.f[int(p)]
            continue
        vt = t["variants"][v.v]
        if p == "?":
            if t.get("name") != "std::option::Option":
                raise Missing(path)
            if v.v == 0:
                return None
            v = v.f[0]
        elif t["kind"] == "enum":
            if vt["n"] != p:
                if p in [x["n"] for x in t["variants"]]:
                    return None
                raise Missing(path)
            names = [x[0] for x in vt["f"]]
        else:
            ns = [x[0] for x in vt["f"]]
            if p not in ns:
                raise Missing(path)
            v = v.f[ns.index(p)]
    return v


def holes(ex, st, v, cols, out=None, depth=12):
    """names of the columns whose text occurs in a value"""
    out = set() if out is None else out
    atoms = set()

    def walk(x, d):
        if d <= 0:
            return
        if isinstance(x, Atom):
            atoms.add(x.k)
            walk(x.k, d - 1)
        elif isinstance(x, (RefV, MutRef)):
            walk(ex.deref(st, x), d - 1)
        elif isinstance(x, Adt):
            for y in x.f:
                walk(y, d - 1)
        elif isinstance(x, Str):
            for y in st.norm(x.s):
                walk(y, d - 1)
        elif isinstance(x, Seq):
            for y in x.it:
                walk(y, d - 1)
        elif isinstance(x, Sym):
            walk(x.k, d - 1)
        elif isinstance(x, Lin):
            for l, _ in x.t:
                walk(l, d - 1)
        elif isinstance(x, Bits):
            for b in x.b:
                if not isinstance(b, int):
                    walk(b[0], d - 1)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, d - 1)
    walk(v, depth)
    for name, segs in cols.items():
        for s in segs:
            if isinstance(s, Atom) and s.k in atoms:
                out.add(name)
    return out


def is_const(x):
    return isinstance(x, Sym) and isinstance(x.k, tuple) and x.k and x.k[0] == "const"


def exact(ex, st, v, kind, c, ver):
    """does value v hold column text c in the way of the kind?  True / False / None"""
    v = ex.deref(st, v)
    if isinstance(v, (int, Sym, Lin, Bits)) and not isinstance(v, bool):
        v = st.simp(v)
    if kind.endswith("24"):
        k = kind[:-2]
        vs = ver_set(st, ver)
        if not vs & {3, 4}:
            return exact(ex, st, v, k, c, ver)
        if vs - {3, 4}:
            # one reading for old and new versions: wrong when it is the written number itself
            return False if exact(ex, st, v, k, c, ver) else None
        if k == "num":
            if isinstance(v, Lin):
                return v.c == 24 and len(v.t) == 1 and v.t[0][1] == 1 and exact(ex, st, lead(v, ex), "num", c, ver)
            iv = st.interval(Sym(("num", c), -1)) if ("iv", ("num", c)) in st.d else None
            if isinstance(v, int) and iv and iv[0] == iv[1]:
                return v == iv[0] + 24
            return False if isinstance(v, (Sym, int)) else None
        # decimal: 24 is added to numbers, kept texts stay
        x = v.f[0] if isinstance(v, Adt) and len(v.f) == 1 else None
        if isinstance(x, Sym):
            d = [w for q, w in Info_dec(st, c).items() if q == ("parse", ("dec",))]
            return x.k == ("ld", c) and d == [False]
        if isinstance(x, Adt) and x.v == 1:
            return exact(ex, st, x.f[0], "str", c, ver)
        if isinstance(x, Adt) and x.v == 0:
            y = st.simp(ex.deref(st, x.f[0]))
            if isinstance(y, Lin):
                cs = [l for l, k2 in y.t if is_const_leaf(l)]
                ds = [(l, k2) for l, k2 in y.t if not is_const_leaf(l)]
                if len(ds) != 1 or ds[0][1] != 1:
                    return False
                off = y.c
                for l, k2 in y.t:
                    if is_const_leaf(l):
                        w = const_int(l)
                        if w is None:
                            return None
                        off += w * k2
                return off == 24 and leaf_key(ds[0][0]) == ("dec", c)
            return False
        return None
    if kind in ("num", "optnum"):
        if isinstance(v, Sym):
            return v.k == ("num", c)
        if isinstance(v, int):
            iv = st.d.get(("iv", ("num", c)))
            return iv is not None and iv[0] == iv[1] == v
        return False
    if kind == "rdec":
        return v.k == ("dec", c) if isinstance(v, Sym) else None
    if kind == "dec":
        x = ex.deref(st, v.f[0]) if isinstance(v, Adt) and len(v.f) == 1 else None
        if isinstance(x, Sym):
            return x.k == ("ld", c)
        if isinstance(x, Adt):
            y = ex.deref(st, x.f[0])
            if x.v == 0:
                return isinstance(y, Sym) and y.k == ("dec", c)
            return exact(ex, st, y, "str", c, ver)
        return None
    if kind == "str":
        return st.norm(v.s) == c or (not st.norm(v.s) and is_blank(st, c)) if isinstance(v, Str) else None
    if kind == "path":
        x = ex.deref(st, v.f[0]) if isinstance(v, Adt) and len(v.f) == 1 else v
        if not isinstance(x, Str):
            return None
        t = st.norm(x.s)
        return t == c or st.norm(('"',) + t + ('"',)) == c
    if kind == "lv":
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "lv":
            return st.norm(v.k[2]) == c
        return None
    if kind == "cv":
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "cv":
            return exact(ex, st, v.k[1], "num", c, ver)
        return None
    return None


def leaf_key(l):
    return l.k if isinstance(l, Sym) else l


def is_const_leaf(l):
    k = leaf_key(l)
    return isinstance(k, tuple) and k and k[0] in ("const", "decc")


def const_int(l):
    """integer value of a Decimal constant of the compiler (flags, hi, lo, mid)"""
    k = leaf_key(l)
    if k[0] == "decc":
        try:
            return int(k[1])
        except ValueError:
            return None
    import re
    n = [int(x) for x in re.findall(r"'i': '(-?\d+)'", str(k[1]))]
    if len(n) != 4:
        return None
    v = Fraction(n[2] | n[3] << 32 | n[1] << 64, 10 ** ((n[0] >> 16) & 0xff))
    return -v if n[0] & 0x80000000 else v


def lead(v, ex):
    l = v.t[0][0]
    return l


def Info_dec(st, c):
    d = {}
    for x in st.cons:
        if x[0] == "parse" and st.norm(x[1]) == c:
            d[("parse", x[2])] = x[3]
    return d


def loose_notes(st):
    """approximations of a path, but for those of the texts a column type accepts (a column is
    accepted or rejected as a whole)"""
    return {n for n in st.notes if not str(n).startswith("summary of ")}


def is_blank(st, segs):
    return all((not x.strip()) if isinstance(x, str) else not (st.af(x).m & ~WS) for x in segs)


def unread(inf):
    """the path found this column unreadable in one way at least"""
    return any(w is False or w == "err" for w in inf.dec.values())


def group(name):
    return name.rstrip("0123456789") if name[:1] in "pe" and name not in ("px", "py") else name


# ------------------------------------------------------------------ analysis of one form
def analyse(F, j):
    """outcomes of the full line and of every shortened line of a form: obligations
    (check, ok?, key, detail)"""
    idx, deps = j
    fm = forms()[idx]
    ex = make_engine(F, deps, K=fm.K, max_outs=20000, max_steps=40000000)
    out = []
    n = {"paths": 0}
    full = None
    spec = {}
    for c in fm.cols:
        spec.setdefault(c.inv, []).append(c.name)
    cuts = [None]
    if fm.cut:
        cuts += list(range(len(fm.cols) - 1, -1 if fm.head and fm.cols[0].sep == "," else 0, -1))
    names = [c.name for c in fm.cols]
    for cut in cuts:
        cols = fm.cols[:cut]
        st = St()
        ver = ver_sym(F, st, *fm.vers)
        segs = lines.tmpl(st, fm.text(cut))
        res = parse_outcomes(ex, fm.T, segs, ver, st)
        infos = []
        for k, v, s in res:
            n["paths"] += 1
            infos.append((k, v, s, {c.name: Info(ex, s, c) for c in cols}, ver_set(s, ver)))
        if cut is None:
            full = [x for x in infos if x[0] == "some"]
            if not full:
                out.append(("C03", None, "no accepted line", fm.text(cut)))
        last = cols[-1].name if cut else None
        nxt = fm.cols[cut] if cut is not None else None
        oks = [x for x in infos if x[0] == "some"]
        for k, v, s, inf, vs in infos:
            where = "%s `%s`" % (fm.name(), fm.text(cut))
            desc = rt.describe(ex, s, segs, ver)
            if k == "cut":
                out.append(("C03", None, "cut", "%s: %s" % (where, str(v)[:100])))
                continue
            if k == "panic" or k == "none":
                continue
            if k == "err":
                e = rt.err_name(ex, s, v)
                if e == "ParseRgbError" or not e:
                    y = v.f[0] if isinstance(v, Adt) and v.f else None
                    e2 = rt.err_name(ex, s, ex.deref(s, y)) if y is not None else ""
                    e = e2 or e
                # columns that no accepted line allows
                rej = [c for c in cols
                       if not any(w[4] & vs and compatible(inf[c.name], w[3][c.name]) for w in full)]
                named = [c for c in cols if c.inv == e]
                blank = bool(cut) and is_blank(s, inf[last].segs)
                if any(c in named for c in rej):
                    out.append(("C03", True, "", ""))
                elif rej:
                    rejn = rej[0]
                    # the line can also be at fault where it ends
                    ok = None
                    if rejn.inv and not any(c.name == rejn.name for c in cols[-1:]) or (rejn.inv and nxt is None):
                        ok = False
                    if nxt is not None and e == nxt.miss or any(unread(inf[c.name]) for c in named):
                        ok = None
                    if fm.loose and any(c.miss == e for c in fm.cols):
                        ok = None       # text after a number counts as a missing separator
                    key = "%s|%s|%s instead of %s" % (fm.label, group(rejn.name), e, rejn.inv)
                    out.append(("C03", ok if not loose_notes(s) else None, key,
                                "%s: column %s is not acceptable but the error is %s (expected %s): %s"
                                % (where, rejn.name, e, rejn.inv, desc)))
                elif nxt is not None:
                    want = {nxt.miss}
                    if nxt.opt:
                        # an optional column is absent: the line may be rejected for a later one
                        want = {c.miss for c in fm.cols[cut:]}
                    if blank:
                        want.add(cols[-1].miss)
                    present = {c.inv for c in cols}
                    ok = True if e in want else None if e in present or not nxt.miss and not nxt.opt or blank or fm.loose else False
                    key = "%s|missing %s|%s instead of %s" % (fm.label, group(nxt.name), e, nxt.miss)
                    out.append(("C03", ok if not loose_notes(s) or ok else None, key,
                                "%s: the line ends before column %s but the error is %s (expected %s): %s"
                                % (where, nxt.name, e, nxt.miss, desc)))
                else:
                    allowed = {c.inv for c in fm.cols} | fm.also
                    out.append(("C03", True if e in allowed else None, "%s|%s" % (fm.label, e),
                                "%s: error %s with no column at fault: %s" % (where, e, desc)))
                continue
            # accepted
            if nxt is not None and not nxt.opt:
                out.append(("C03", False if not loose_notes(s) else None, "%s|missing %s|accepted" % (fm.label, nxt.name),
                            "%s: accepted although column %s is missing: %s" % (where, nxt.name, desc)))
                continue
            csegs = {c.name: i.segs for c, i in zip(cols, inf.values())}
            for c in fm.cols:
                for path, kind in c.fields:
                    key = "%s|%s|%s" % (fm.label, c.name, path)
                    try:
                        x = get(ex, s, v, path)
                    except Missing:
                        out.append(("C04", None, "no field " + path, where))
                        continue
                    if c.name not in csegs:
                        # absent column: the field must not be filled from another one
                        h = holes(ex, s, x, csegs) if x is not None else set()
                        out.append(("C04", not h or (None if loose_notes(s) else False), key + "|absent column",
                                    "%s: column %s is missing but %s is filled from %s: %s" % (where, c.name, path, sorted(h), desc)))
                        continue
                    cs = csegs[c.name]
                    if x is None:
                        # allowed only when the column text is empty
                        r = None
                        if kind == "optnum":
                            r = True if not cs or all(not isinstance(q, str) and not s.af(q).m & ~WS for q in cs) else False
                        elif c.opt:
                            r = None if loose_notes(s) else False
                            if not cs:
                                r = True
                        else:
                            r = False
                        out.append(("C04", r if not loose_notes(s) or r else None, key + "|not filled",
                                    "%s: %s is not filled from column %s: %s" % (where, path, c.name, desc)))
                        continue
                    r = exact(ex, s, x, kind, cs, ver)
                    if r is None:
                        h = holes(ex, s, x, csegs)
                        if h - {c.name}:
                            r = False
                        elif h:
                            r = True
                        else:
                            # a constant: must be explained by the column (other constants need another column text)
                            r = True
                            for k2, v2, s2, inf2, vs2 in oks:
                                if not vs & vs2:
                                    continue
                                try:
                                    x2 = get(ex, s2, v2, path)
                                except Missing:
                                    continue
                                if x2 is None or holes(ex, s2, x2, csegs):
                                    continue
                                if same(ex, s2, x, x2) is False and compatible(inf[c.name], inf2[c.name]):
                                    r = None if loose_notes(s) | loose_notes(s2) else False
                                    break
                    what = "does not hold column %s" % c.name
                    if r is False:
                        h = holes(ex, s, x, csegs)
                        what = "is filled from column %s instead of %s" % (",".join(sorted(h)), c.name) if h - {c.name} \
                            else "does not hold column %s as read (%s)" % (c.name, str(x)[:120])
                    out.append(("C06" if kind.endswith("24") and (vs & {3, 4}) else "C04", r if not loose_notes(s) or r else None, key,
                                "%s: %s %s: %s" % (where, path, what, desc)))
    return out, n["paths"], len(cuts), {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)


def run_forms(F, limit=300):
    fs = forms()
    P = lines.from_impls(F)
    deps = {}
    need = set()
    missing = sorted({f.T for f in fs if f.T not in P})
    for f in fs:
        if f.T in P and f.T not in deps:
            deps[f.T] = lines.direct_deps(F, f.T)
            need |= set(deps[f.T])
    bad = {b[0] for b in lines.presummarise(F, sorted(need))}
    jobs = [(i, [d for d in deps[f.T] if d not in bad]) for i, f in enumerate(fs) if f.T in P]
    only = __import__("os").environ.get("ONLY")
    if only:
        jobs = [j for j in jobs if only in fs[j[0]].name()]
    return fs, missing, run_jobs(F, analyse, jobs, limit=limit)
