"""The line formats of the .osu / .osb grammar as entry states for the abstract interpreter:
texts with holes that stand for every string of a character class."""
import an
from an import *

NL = mask("\n\r")


def tmpl(st, text):
    """template -> segments.  {x} any text without comma or line break, {x:cs} additionally
    without the characters cs, {x?} the rest of the line: empty or starting with a comma,
    {x*} anything on one line"""
    segs = []
    i = 0
    while i < len(text):
        j = text.find("{", i)
        if j < 0:
            segs.append(text[i:])
            break
        if j > i:
            segs.append(text[i:j])
        e = text.index("}", j)
        name = text[j + 1:e]
        m = ALL & ~NL
        f = None
        if name.endswith("?"):
            name = name[:-1]
            f = mask(",")
        elif name.endswith("*"):
            name = name[:-1]
        else:
            name, _, cs = name.partition(":")
            m &= ~mask("," + cs)
        a = Atom(name)
        if ("at", a.k) not in st.d:
            st.set_af(a, AF(m, f=f))
        segs.append(a)
        i = e + 1
    return st.norm(tuple(segs))


class Line:
    def __init__(self, T, text="{text*}", vers=(3, 14), K=1, label=None, stop=None):
        self.T, self.text, self.vers, self.K = "osu_file::" + T, text, vers, K
        self.label = label or T.rsplit("::", 1)[-1]
        self.stop = stop

    def name(self):
        return "%s|%s" % (self.label, self.text)


SIMPLE = []     # leaf types are found from the source, see leaf_types()
HO = "hitobjects::HitObject"
CMD = "events::storyboard::cmds::Command"
_S = "{x:|},{y:|},{time},2,{hs},{curve:|}|{p1:|},{slides},{length}"
_S2 = "{x:|},{y:|},{time},2,{hs},{curve:|}|{p1:|}|{p2:|},{slides},{length}"
LINES = [
    Line("events::normal_event::Background"), Line("events::normal_event::Video"),
    Line("events::normal_event::Break"), Line("events::normal_event::ColourTransformation"),
    Line("events::normal_event::SpriteLegacy"), Line("events::normal_event::AnimationLegacy"),
    Line("events::normal_event::SampleLegacy"), Line("events::audio_sample::AudioSample"),
    Line("events::storyboard::sprites::Object"),
    Line("timingpoints::TimingPoint"), Line("hitobjects::types::HitSample"),
    Line("hitobjects::types::EdgeSet"), Line("hitobjects::types::CurvePoint"),
    Line("colours::Colour"), Line("osb::types::Variable"),
    Line(HO, "{x},{y},{time},1,{hs}{rest?}", label="HitCircle"),
    Line(HO, "{x},{y},{time},8,{hs}{rest?}", label="Spinner"),
    Line(HO, "{x},{y},{time},128,{hs}{rest?}", label="Hold"),
    Line(HO, "{x:|},{y:|},{time},2,{hs},{curve:|},{slides},{length}{rest?}", label="SliderNoPoints"),
    Line(HO, _S + "{rest?}", label="Slider", stop="parse"),
    Line(HO, _S, label="Slider"),
    Line(HO, _S2, label="SliderPoints"),
    Line(HO, _S + ",{es:|}", label="SliderSounds"),
    Line(HO, _S + ",{es:|}|{es2:|}", label="SliderSounds"),
    Line(HO, _S + ",{es:|},{et:|}", label="SliderSets"),
    Line(HO, _S + ",{es:|},{et:|}|{et2:|}", label="SliderSets"),
    Line(HO, _S + ",{es:|},{et:|},{sample*}", label="SliderSample"),
]
for _c in ("F", "MX", "MY", "S", "R"):
    LINES.append(Line(CMD, _c + ",{easing},{start},{end},{v}{more?}", label="Command:" + _c, K=2))
for _c in ("M", "V"):
    LINES.append(Line(CMD, _c + ",{easing},{start},{end},{v},{w}{more?}", label="Command:" + _c, K=2))
LINES.append(Line(CMD, "C,{easing},{start},{end},{r},{g},{b}{more?}", label="Command:C", K=2))
LINES.append(Line(CMD, "P,{easing},{start},{end},{p}{more?}", label="Command:P", K=2))
LINES.append(Line(CMD, "L,{start},{count*}", label="Command:L"))
LINES.append(Line(CMD, "T,{trigger}{rest?}", label="Command:T"))


def from_impls(F):
    return {k[0]: v[0][1] for k, v in F.bymethod.items()
            if k[1] == FROM and k[2] == "from_str" and k[0].startswith("osu_file")}


def direct_deps(F, T, root=None, printable=True):
    """types whose from_str is reached from T's without going through another one"""
    P = from_impls(F)
    inv = {v: k for k, v in P.items()}
    seen, todo, res = set(), [P[T] if root is None else root], set()
    while todo:
        x = todo.pop()
        for y in sorted(F.fn_refs(F.fns[x])):
            if y in seen:
                continue
            seen.add(y)
            if y in inv:
                if inv[y] != T:
                    res.add(inv[y])
            elif F.fns[y].get("body"):
                todo.append(y)
    return sorted(t for t in res if not printable or method_id(F, t, TO, "to_string") is not None)


def leaf_types(F):
    """printable types that contain no other parsed type"""
    return sorted(t for t in from_impls(F)
                  if method_id(F, t, TO, "to_string") is not None and not direct_deps(F, t))


def presummarise(F, types, limit=120):
    """summaries of the leaf parsers, computed in parallel; types that could not be are left
    to be interpreted in place"""
    todo = [t for t in types if t not in SUMS]
    bad = []
    for t, status, r in run_jobs(F, lambda F, t: an.summarise(F, t), todo, limit=limit):
        if status == "ok":
            SUMS[t] = r
        else:
            bad.append((t, status, r))
    return bad


def plan(F, only=None):
    """(lines, stub types per type): checks that every anchor type exists"""
    P = from_impls(F)
    ls = [l for l in LINES if l.T in P and (only is None or l.T in only)]
    missing = sorted({l.T for l in LINES if l.T not in P})
    deps = {}
    need = set()
    for l in ls:
        if l.T not in deps:
            deps[l.T] = direct_deps(F, l.T)
            need |= set(deps[l.T])
    bad = presummarise(F, sorted(need))
    bt = {b[0] for b in bad}
    for t in deps:
        deps[t] = [d for d in deps[t] if d not in bt]
    return ls, deps, missing, bad
