"""The package as a whole: C42 (citations), C43 (names), C44 (constants)."""

import ast
import builtins
import itertools
import os
import re
import symtable
from fractions import Fraction as F

from .. import algebra as A
from .. import models as md
from .. import rint
from .. import tensor as tn
from ..harness import SRC, Fail, arr, same, sc, show
from ..interp import Class, ExtModule, Func, Interp, Model, Module, Obj
from ..tensor import AbsRaise, T, Unsupported, araise
from . import check
from .common import build, orbit_kwargs, planet_args, posv
from .distributions import PM3, Built, cited, public, same_list, same_models, summary
from .orbits import AU_PER_RSUN, C_SPEC, G_SPEC, GCC, U

BACKENDS = (("pymc", {}), ("pymc3", PM3))


def package_files():
    out = []
    for root, _, fs in os.walk(os.path.join(SRC, "exoplanet")):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                n = os.path.relpath(p, SRC)[:-3].replace(os.sep, ".")
                out.append((n[:-9] if n.endswith(".__init__") else n, p))
    return sorted(out)


def short(p):
    return os.path.relpath(p, os.path.dirname(SRC))


# ---- C42 -------------------------------------------------------------------------
def bib_keys(text):
    return re.findall(r"@\w+\s*\{\s*([^,\s{}]+)\s*,", text)


def cite_groups(text):
    flat = " ".join(text.split("\n"))
    return [[k.strip() for k in g.split(",")] for g in re.findall(r"\\cite[pt]?\{([^{}]*)\}", flat)]


def string(v, what):
    if not isinstance(v, str):
        raise Fail("%s is not text" % what)
    return v


# what is recorded when a component is built
COMPONENTS = {
    "orbit": {"astropy"},
    "TTV orbit": {"astropy"},
    "light curve": {"starry"},
    "eclipse": {"starry"},
    "limb darkening": {"kipping13"},
    "impact parameter": set(),
    "angle": set(),
    "Kipping": {"kipping13b"},
    "Van Eylen": {"vaneylen19"},
}


def make(ip, what, kw):
    exo = ip.import_module("exoplanet")
    P2 = lambda a: [sc(A.sym(a + "1")), sc(A.sym(a + "2"))]
    if what == "orbit":
        return ip.call(ip.getattr(exo.vars["orbits"], "KeplerianOrbit"), [], dict(orbit_kwargs(dict(mass="P+ms+rs", n=2)), **kw))
    if what == "TTV orbit":
        a = orbit_kwargs(dict(mass="P+ms+rs", n=1, ref="t0"))
        a["ttvs"] = [arr([A.sym("d0"), A.sym("d1"), A.sym("d2")])]
        return ip.call(ip.getattr(exo.vars["orbits"], "TTVOrbit"), [], dict(a, **kw))
    if what == "light curve":
        return ip.call(ip.getattr(exo, "LimbDarkLightCurve"), P2("u"), kw)
    if what == "eclipse":
        return ip.call(ip.getattr(exo, "SecondaryEclipseLightCurve"), [P2("u"), P2("v"), posv(2, "sb")], kw)
    d = ip.import_module("exoplanet.distributions")
    if what == "limb darkening":
        return ip.call(ip.getattr(d, "quad_limb_dark"), ["u"], kw)
    if what == "impact parameter":
        return ip.call(ip.getattr(d, "impact_parameter"), ["b", posv(2, "k")], dict(kw, shape=2))
    if what == "angle":
        return ip.call(ip.getattr(d, "angle"), ["x"], kw)
    e = ip.getattr(d, "eccentricity")
    if what == "Kipping":
        return ip.call(ip.getattr(e, "kipping13"), ["e1"], kw)
    if what == "Van Eylen":
        return ip.call(ip.getattr(e, "vaneylen19"), ["e2"], kw)
    raise Fail(what)


def model_of(ip):
    pm = ip.import_module("exoplanet.compat").vars["pm"]
    return ip.call(ip.getattr(pm, "Model"), [], {})


def recorded(ip, m):
    c = m.attrs.get("__citations__")
    return [] if c is None else list(ip.iterate(c))


@check("C42")
def c42(ck):
    ck.rule(
        "The registry of citations is interpreted; its entries are parsed "
        "(keys cited = keys defined, balanced braces, unique keys). Every "
        "citing component is built in abstract models in every combination "
        "and order, and the generated text is parsed: its cited keys, their "
        "order, the line width and the bibliography are compared with the "
        "registry."
    )
    for back, opts in BACKENDS:
        ip = ck.ip(**opts)
        cit = ip.import_module("exoplanet.citations").vars
        reg = cit["CITATIONS"]
        file = "src/exoplanet/citations.py"
        if back == "pymc":
            seen = {}
            for name in sorted(reg):
                bad = []
                e = reg[name]
                if not (isinstance(e, (tuple, list)) and len(e) == 2 and isinstance(e[0], (tuple, list)) and all(isinstance(k, str) for k in e[0]) and isinstance(e[1], str)):
                    bad.append("%s:1 :: the entry %s is not (keys, bibliography)" % (file, name))
                else:
                    have = bib_keys(e[1])
                    for k in e[0]:
                        if k not in have:
                            bad.append("%s:1 :: the bibliography of %s has no entry %s" % (file, name, k))
                        if re.search(r"[\s,{}\-]", k):
                            bad.append("%s:1 :: the key %s would be broken across lines" % (file, k))
                    for k in have:
                        if k not in e[0]:
                            bad.append("%s:1 :: the entry %s of %s is never cited" % (file, k, name))
                        if k in seen:
                            bad.append("%s:1 :: the entry %s is defined twice" % (file, k))
                        seen[k] = name
                    depth = 0
                    for ch in re.sub(r"\\.", "", e[1]):
                        depth += (ch == "{") - (ch == "}")
                        if depth < 0:
                            break
                    if depth:
                        bad.append("%s:1 :: unbalanced braces in the bibliography of %s" % (file, name))
                ck.static("registry entry %s" % name, bad, "citations:CITATIONS", "registry")
            need = {"exoplanet", "arviz", "pymc3", "theano"} - set(reg)
            ck.static("entries of the package and its back ends", ["%s:1 :: no entry %s" % (file, n) for n in sorted(need)], None, "registry")

        # -- components
        for what, want in COMPONENTS.items():
            for how in ("context", "given", "given inside another", "no model"):
                prior = what not in ("orbit", "TTV orbit", "light curve", "eclipse")
                if how.startswith("given") and what in ("angle", "impact parameter", "limb darkening"):
                    continue
                if how == "no model" and prior:
                    continue
                def component(ip=ip, what=what, want=want, how=how):
                    m = model_of(ip)
                    other = model_of(ip)
                    depth = len(ip.model_stack)
                    kw = {}
                    if how == "context":
                        ip.model_stack.append(m)
                    if how.startswith("given"):
                        kw["model"] = m
                        if "inside" in how or prior:
                            ip.model_stack.append(other)
                    try:
                        make(ip, what, kw)
                    except AbsRaise as e:
                        raise Fail("building %s %s raises %s" % (what, "without a model" if how == "no model" else "in a model", e))
                    finally:
                        del ip.model_stack[depth:]
                    got = recorded(ip, m)
                    if how == "no model":
                        if got or recorded(ip, other):
                            raise Fail("citations are recorded in a model that is not active")
                        return
                    miss = want - set(got)
                    if miss:
                        raise Fail("building %s does not record %s" % (what, ", ".join(sorted(miss))))
                    for k in got:
                        if k not in ip.import_module("exoplanet.citations").vars["CITATIONS"]:
                            raise Fail("%s is not in the registry" % k)
                    if how.startswith("given") and recorded(ip, other):
                        raise Fail("citations are recorded in another model than the given one")
                ck.ob("citations of %s [%s, %s]" % (what, how, back), component, ip, "citations:add_citations_to_model", "components")

        # -- text
        def text(ip, ask, width, how):
            """ask: components to build, in order."""
            m = model_of(ip)
            depth = len(ip.model_stack)
            n0 = len(ip.events)
            ip.model_stack.append(m)
            try:
                for w in ask:
                    make(ip, w, {})
                kw = {} if width is None else {"width": width}
                if how == "given":
                    ip.model_stack.pop()
                    kw["model"] = m
                out = ip.call(ip.import_module("exoplanet.citations").vars["get_citations_for_model"], [], kw)
            finally:
                del ip.model_stack[depth:]
            reg = ip.import_module("exoplanet.citations").vars["CITATIONS"]
            txt, bib = [string(x, "the result") for x in ip.iterate(out)]
            names = list(dict.fromkeys(recorded(ip, m)))
            want = set()
            for w in ask:
                want |= COMPONENTS[w]
            if names and want - set(names):
                raise Fail("%s is not recorded after building %s" % (sorted(want - set(names))[0], ", ".join(ask)))
            if not names:
                if want:
                    raise Fail("nothing is recorded")
                if (txt, bib) != ("", ""):
                    raise Fail("a model without citations gives text")
                if not any(e.kind in ("log_warning", "warning") for e in ip.events[n0:]):
                    raise Fail("a model without citations gives no warning")
                return
            extra = ["arviz"] + (["pymc3", "theano"] if ip.backend == "pymc3" else [])
            keys = [k for n in list(dict.fromkeys(names + extra)) for k in reg[n][0]]
            groups = cite_groups(txt)
            cite = [k for g in groups for k in g]
            own = list(reg["exoplanet"][0])
            if set(cite) != set(keys) | set(own):
                d = (set(keys) | set(own)) ^ set(cite)
                raise Fail("the text %s %s" % ("does not cite" if sorted(d)[0] not in cite else "cites", sorted(d)[0]))
            for g in groups:
                if not set(g) & set(own) and g != sorted(g):
                    raise Fail("the keys are not sorted")
            if len(cite) != len(set(cite)):
                raise Fail("a key is cited twice")
            have = bib_keys(bib)
            for k in cite:
                if have.count(k) != 1:
                    raise Fail("the bibliography has %d entries for %s" % (have.count(k), k))
            if set(have) - set(cite):
                raise Fail("the bibliography has an entry %s that is not cited" % sorted(set(have) - set(cite))[0])
            for n in ["exoplanet"] + names + extra:
                if reg[n][1].strip() not in bib:
                    raise Fail("the bibliography of %s is incomplete" % n)
            long = [l for l in txt.split("\n") if len(l) > (79 if width is None else width)]
            if long and max(len(w) for l in long for w in l.split()) < (79 if width is None else width):
                raise Fail("a line is longer than %s" % width)
            if "exoplanet" not in txt:
                raise Fail("the text does not name the package")
        comps = list(COMPONENTS)
        combos = [()] + [(c,) for c in comps] + list(itertools.permutations(comps, 2)) + [tuple(comps), tuple(comps[::-1]), ("light curve", "light curve", "orbit", "orbit", "eclipse")]
        if ck.thorough:
            combos += list(itertools.combinations(comps, 3)) + list(itertools.combinations(comps, 5))
        uniq = {"limb darkening", "impact parameter", "angle", "Kipping", "Van Eylen"}
        for c in combos:
            for i, (width, how) in enumerate([(None, "context"), (40, "given"), (60, "context"), (200, "given")]):
                if len(c) == 2 and not ck.thorough and (width not in (None, 40)):
                    continue
                ck.ob("acknowledgement [%s, width %s, %s, %s]" % (" + ".join(c) or "nothing", width, how, back), lambda a=(ip, c, width, how): text(*a), ip,
                      "citations:get_citations_for_model", "text")

        def wide(ip, n):
            """All registered citations at once."""
            m = model_of(ip)
            c = ip.import_module("exoplanet.citations").vars
            names = [k for k in c["CITATIONS"] if k not in ("exoplanet", "arviz", "pymc3", "theano")]
            ip.call(c["add_citations_to_model"], [names if n else tuple(names[::-1])], {"model": m})
            if sorted(recorded(ip, m)) != sorted(names):
                raise Fail("%d of %d citations are recorded" % (len(recorded(ip, m)), len(names)))
            txt, bib = ip.iterate(ip.call(c["get_citations_for_model"], [], {"model": m}))
            cite = [k for g in cite_groups(txt) for k in g]
            for k in names:
                for q in c["CITATIONS"][k][0]:
                    if q not in cite or q not in bib_keys(bib):
                        raise Fail("%s is missing" % q)
        for n in (0, 1):
            ck.ob("all citations [%d, %s]" % (n, back), lambda a=(ip, n): wide(*a), ip, "citations:get_citations_for_model", "text")


# ---- C43 -------------------------------------------------------------------------
# the documented names (docs/user/api.rst) and the other public ones
DOCUMENTED = """
exoplanet.orbits.KeplerianOrbit exoplanet.orbits.TTVOrbit exoplanet.orbits.SimpleTransitOrbit
exoplanet.LimbDarkLightCurve exoplanet.SecondaryEclipseLightCurve
exoplanet.estimate_semi_amplitude exoplanet.estimate_minimum_mass
exoplanet.lomb_scargle_estimator exoplanet.autocorr_estimator exoplanet.bls_estimator
exoplanet.distributions.angle exoplanet.distributions.unit_disk
exoplanet.distributions.quad_limb_dark exoplanet.distributions.impact_parameter
exoplanet.distributions.eccentricity.kipping13 exoplanet.distributions.eccentricity.vaneylen19
exoplanet.orbits.ttv.compute_expected_transit_times
exoplanet.units.with_unit exoplanet.units.has_unit exoplanet.units.to_unit
exoplanet.citations.get_citations_for_model
exoplanet.orbits exoplanet.interp exoplanet.CITATIONS exoplanet.__version__
exoplanet.InterpolatedLightCurve exoplanet.find_peaks exoplanet.angle exoplanet.unit_disk
exoplanet.quad_limb_dark exoplanet.impact_parameter exoplanet.eccentricity
exoplanet.ImpactParameter exoplanet.QuadLimbDark
exoplanet.distributions.ImpactParameter exoplanet.distributions.QuadLimbDark
exoplanet.orbits.get_true_anomaly exoplanet.orbits.duration_to_eccentricity
exoplanet.orbits.keplerian.KeplerianOrbit exoplanet.orbits.keplerian.get_true_anomaly
exoplanet.orbits.keplerian.get_aor_from_transit_duration
exoplanet.interp.RegularGridInterpolator exoplanet.interp.regular_grid_interp
exoplanet.light_curves.LimbDarkLightCurve exoplanet.light_curves.SecondaryEclipseLightCurve
exoplanet.light_curves.InterpolatedLightCurve exoplanet.utils.deprecated
exoplanet.utils.as_tensor_variable exoplanet.utils.deprecation_warning exoplanet.utils.docs_setup
exoplanet.citations.add_citations_to_model exoplanet.citations.CITATIONS
exoplanet.estimators.estimate_semi_amplitude exoplanet.estimators.bls_estimator
""".split()


def documented():
    out = list(DOCUMENTED)
    p = os.path.join(os.path.dirname(SRC), "docs", "user", "api.rst")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"\s*\.\. auto(?:class|function|data|module|method)::\s*([\w.]+)", l)
            if m and m.group(1) not in out:
                out.append(m.group(1))
    return out


def reach(ip, dotted):
    parts = dotted.split(".")
    v = ip.import_module(parts[0])
    path = parts[0]
    for p in parts[1:]:
        path += "." + p
        try:
            v = ip.getattr(v, p)
        except AbsRaise:
            try:
                v = ip.import_module(path)
            except (AbsRaise, Unsupported):
                raise Fail("%s does not exist" % path)
    return v


def module_values(ip, name):
    return ip.import_module(name).vars


def undefined(path):
    """Names that a function reads and that are defined nowhere."""
    src = open(path).read()
    tree = ast.parse(src)
    top = symtable.symtable(src, path, "exec")
    defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree))
    loads = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            loads.setdefault(n.id, n.lineno)
        if isinstance(n, ast.Global):
            for x in n.names:
                defined.add(x)
    bad = []
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__"}

    def visit(t):
        for s in t.get_symbols():
            nm = s.get_name()
            if s.is_referenced() and (s.is_global() or t is top) and nm not in defined and nm not in known and not star:
                bad.append("%s:%d :: the name %s is not defined (in %s)" % (short(path), loads.get(nm, t.get_lineno()), nm, t.get_name()))
        for c in t.get_children():
            visit(c)
    visit(top)
    return sorted(set(bad))


@check("C43")
def c43(ck):
    ck.rule(
        "Every module is interpreted under both back ends; the names in "
        "__all__, the names imported from the package's own modules, the "
        "documented names and the re-exported ones are resolved, re-exports "
        "must be the same objects as in their source modules, functions must "
        "not read names defined nowhere, and the deprecated aliases are "
        "called with opaque arguments and compared with their replacement."
    )
    files = package_files()
    mods = [n for n, _ in files if n != "exoplanet.exoplanet_version"]
    for n, p in files:
        ck.static("defined names of %s" % n, undefined(p), None, "names")
    for back, opts in BACKENDS:
        ip = ck.ip(**opts)

        def declared(ip, n):
            v = module_values(ip, n)
            if "__all__" not in v:
                return
            for x in ip.iterate(v["__all__"]):
                if not isinstance(x, str) or x not in v:
                    try:
                        ip.import_module(n + "." + x)
                    except (AbsRaise, TypeError):
                        raise Fail("%s declares %r, which it does not define" % (n, x))
        for n in mods:
            ck.ob("declared names of %s [%s]" % (n, back), lambda a=(ip, n): declared(*a), ip, None, "declared")

        def imported(ip, n, p):
            for node in ast.walk(ast.parse(open(p).read())):
                if not isinstance(node, ast.ImportFrom):
                    continue
                mod = node.module or ""
                if node.level:
                    base = n.split(".") if p.endswith("__init__.py") else n.split(".")[:-1]
                    base = base[:len(base) - node.level + 1]
                    mod = ".".join(base + ([mod] if mod else []))
                if mod.split(".")[0] != "exoplanet" or mod == "exoplanet.exoplanet_version":
                    continue
                src = ip.import_module(mod)
                for a in node.names:
                    if a.name == "*":
                        continue
                    if a.name not in src.vars:
                        try:
                            ip.import_module(mod + "." + a.name)
                        except (AbsRaise, TypeError):
                            raise Fail("%s:%d imports %s from %s, which does not define it" % (short(p), node.lineno, a.name, mod))
        for n, p in files:
            ck.ob("imports of %s [%s]" % (n, back), lambda a=(ip, n, p): imported(*a), ip, None, "imports")

        for d in documented():
            ck.ob("documented name %s [%s]" % (d, back), lambda a=(ip, d): (reach(*a), None)[1], ip, None, "documented")

        def reexported(ip, n, top):
            """The public names of a module are the same objects above it."""
            v = module_values(ip, n)
            up = module_values(ip, top)
            for x in ip.iterate(v["__all__"]):
                if x not in up:
                    raise Fail("%s does not export %s of %s" % (top, x, n))
                if up[x] is not v[x]:
                    raise Fail("%s.%s is not %s.%s" % (top, x, n, x))
        for n, top in (("exoplanet.distributions", "exoplanet"), ("exoplanet.estimators", "exoplanet"), ("exoplanet.light_curves", "exoplanet"),
                       ("exoplanet.utils", "exoplanet"), ("exoplanet.light_curves.limb_dark", "exoplanet"), ("exoplanet.light_curves.secondary_eclipse", "exoplanet"),
                       ("exoplanet.light_curves.interpolated", "exoplanet"), ("exoplanet.distributions.distributions", "exoplanet.distributions"),
                       ("exoplanet.orbits.ttv", None), ("exoplanet.orbits.simple", "exoplanet.orbits")):
            if top is None:
                continue
            ck.ob("re-exports of %s in %s [%s]" % (n, top, back), lambda a=(ip, n, top): reexported(*a), ip, None, "re-exports")

        def kinds(ip):
            for d, want in (("exoplanet.orbits", Module), ("exoplanet.interp", Module), ("exoplanet.distributions", Module), ("exoplanet.eccentricity", Module),
                            ("exoplanet.orbits.KeplerianOrbit", Class), ("exoplanet.orbits.TTVOrbit", Class), ("exoplanet.orbits.SimpleTransitOrbit", Class),
                            ("exoplanet.LimbDarkLightCurve", Class), ("exoplanet.InterpolatedLightCurve", Class), ("exoplanet.SecondaryEclipseLightCurve", Class)):
                v = reach(ip, d)
                if not isinstance(v, want):
                    raise Fail("%s is a %s" % (d, type(v).__name__))
            if reach(ip, "exoplanet.orbits") is not ip.import_module("exoplanet.orbits") or reach(ip, "exoplanet.interp") is not ip.import_module("exoplanet.interp"):
                raise Fail("a subpackage is shadowed by another object")
        ck.ob("kinds of exports [%s]" % back, lambda ip=ip: kinds(ip), ip, None, "re-exports")

        # -- deprecated aliases
        def alias(ip, name, target, args, kw):
            a, b = (Built(ip, f, list(args), dict(kw)) for f in (public(ip, name), public(ip, target)))
            w = [e for e in a.events if e.kind == "warning"]
            if not w:
                raise Fail("%s gives no warning" % name)
            if not any(md_category(e) == "DeprecationWarning" for e in w):
                raise Fail("%s gives another warning than DeprecationWarning" % name)
            if not any(isinstance(e.message, str) and target in e.message for e in w):
                raise Fail("the warning of %s does not name %s" % (name, target))
            if [e for e in b.events if e.kind == "warning"]:
                raise Fail("the replacement %s warns" % target)
            same_list(*same_models(summary(ip, a), summary(ip, b)), what="the values returned")
        for name, target, args, kw in (
            ("ImpactParameter", "impact_parameter", ["b", posv(2, "k")], {"shape": 2}),
            ("ImpactParameter", "impact_parameter", ["b", sc(A.pos("k"))], {}),
            ("ImpactParameter", "impact_parameter", ["b"], {"ror": sc(A.pos("k")), ("initval" if back == "pymc" else "testval"): sc(F(1, 4), "np")}),
            ("QuadLimbDark", "quad_limb_dark", ["u"], {}),
            ("QuadLimbDark", "quad_limb_dark", ["u"], {("initval" if back == "pymc" else "testval"): arr([F(1, 4), F(1, 5)], "np")}),
            ("QuadLimbDark", "quad_limb_dark", [], {"name": "u"}),
        ):
            ck.ob("%s(%s) [%s]" % (name, ", ".join([str(len(args))] + sorted(kw)), back), lambda a=(ip, name, target, args, kw): alias(*a), ip, "utils:deprecated", "deprecated")

        def wrapper(ip, alternate):
            calls = []
            res = object()
            inner = Model(lambda *a, **k: (calls.append((a, k)), res)[1], "inner")
            kw = {} if alternate is None else {"alternate": alternate}
            f = ip.call(ip.call(ip.import_module("exoplanet.utils").vars["deprecated"], [], kw), [inner])
            n0 = len(ip.events)
            if [e for e in ip.events[n0:] if e.kind == "warning"]:
                raise Fail("decorating already warns")
            x, y = object(), object()
            for a, k in (([], {}), ([x], {}), ([x, y], {"alpha": y}), ([], {"func": x, "alternate": y})):
                n0 = len(ip.events)
                del calls[:]
                r = ip.call(f, list(a), dict(k))
                if r is not res:
                    raise Fail("the result is not returned")
                if len(calls) != 1 or list(calls[0][0]) != a or calls[0][1] != k:
                    raise Fail("the arguments are not forwarded")
                w = [e for e in ip.events[n0:] if e.kind == "warning"]
                if not w or md_category(w[0]) != "DeprecationWarning":
                    raise Fail("no DeprecationWarning")
                if "inner" not in w[0].message or (alternate and alternate not in w[0].message):
                    raise Fail("the warning is %r" % w[0].message)
        for alt in (None, "exoplanet.new_name"):
            ck.ob("deprecated(%s) [%s]" % (alt, back), lambda a=(ip, alt): wrapper(*a), ip, "utils:deprecated", "deprecated")


def md_category(e):
    c = e.category
    return getattr(c, "__name__", None) or getattr(c, "name", None) or str(c)


# ---- C44 -------------------------------------------------------------------------
# name: (exact value in terms of the unit library, what it is)
CONSTANTS = {
    "G_grav": (G_SPEC, "the gravitational constant in R_sun^3 / M_sun / day^2"),
    "gcc_per_sun": (GCC, "g/cm^3 per M_sun/R_sun^3"),
    "au_per_R_sun": (AU_PER_RSUN, "au per R_sun"),
    "c_light": (C_SPEC, "the speed of light in R_sun per day"),
    "day_per_yr_over_2pi": (
        A.power(A.power(U["au"].scale, 3) / (md.G_SI * U["M_sun"].scale), F(1, 2)) / 86400,
        "days per year / 2 pi"),
}


class Broken:
    """A library object of which every use fails with a TypeError."""

    def __init__(self, what):
        self.what = what

    def abs_getattr(self, ip, name):
        araise(TypeError, "%s is broken" % self.what)

    def abs_binop(self, ip, op, other, rev):
        araise(TypeError, "%s is broken" % self.what)

    def abs_call(self, ip, args, kw):
        araise(TypeError, "%s is broken" % self.what)


def constant_value(v, what):
    if isinstance(v, (int, F)):
        return A.ex(v)
    if isinstance(v, md.Quantity):
        raise Fail("%s still has a unit" % what)
    t = tn.lift(v)
    if t.data.size != 1:
        raise Fail("%s is not a number" % what)
    return t.data.flat[0] if t.ndim else t.data.item()


def constants_modules(ip):
    """Modules that define one of the constants themselves."""
    return ip.import_module("exoplanet.orbits.constants").vars


@check("C44")
def c44(ck):
    ck.rule(
        "The constants module is interpreted with the unit library as "
        "symbols; every constant is compared as a normal form with the "
        "stated quantity in the stated units. It is interpreted again with "
        "each part of the unit library failing; every name must then be "
        "defined, with a value within 1e-4 of the computed one."
    )
    for back, opts in BACKENDS:
        ip = ck.ip(**opts)

        def computed(ip, n):
            v = constants_modules(ip)
            if n not in v:
                raise Fail("%s is not defined" % n)
            same(constant_value(v[n], n), CONSTANTS[n][0], n)
        for n in CONSTANTS:
            ck.ob("%s is %s [%s]" % (n, CONSTANTS[n][1], back), lambda a=(ip, n): computed(*a), ip, "orbits.constants", "computed")

        def users(ip):
            """Modules that import a constant see that constant."""
            v = constants_modules(ip)
            for n, m in ip.modules.items():
                for c in CONSTANTS:
                    if n != "exoplanet.orbits.constants" and c in m.vars and m.vars[c] is not v[c]:
                        same(constant_value(m.vars[c], c), CONSTANTS[c][0], "%s.%s" % (n, c))
        ck.ob("uses of the constants [%s]" % back, lambda ip=ip: users(ip), ip, "orbits.constants", "computed")

        def fallback(module, attr, back=back, opts=opts):
            new = Interp(SRC, **({"backend": "pymc"} if not opts else opts))
            lib = new.ext[module]
            lib.attrs = dict(lib.attrs)
            lib.attrs[attr] = Broken("%s.%s" % (module, attr))
            n0 = len(new.events)
            try:
                v = new.import_module("exoplanet.orbits.constants").vars
            except AbsRaise as e:
                raise Fail("importing the package fails when %s.%s does: %s" % (module, attr, e))
            if not any(e.kind == "warning" for e in new.events[n0:]):
                raise Fail("no warning is given when %s.%s fails" % (module, attr))
            for n in CONSTANTS:
                if n not in v:
                    raise Fail("%s is not defined when %s.%s fails" % (n, module, attr))
                got = constant_value(v[n], n)
                want = A.evaluate(CONSTANTS[n][0], md.NOMINAL)
                g = A.evaluate(got, md.NOMINAL)
                if abs(g - want) > 1e-4 * abs(want):
                    raise Fail("%s is %r when the unit library fails and %r otherwise" % (n, float(g), float(want)))
        for module, attr in (("astropy.constants", "G"), ("astropy.constants", "c"), ("astropy.units", "R_sun"), ("astropy.units", "M_sun"),
                             ("astropy.units", "au"), ("astropy.units", "g"), ("astropy.units", "day"), ("astropy.units", "cm")):
            ck.ob("fallback without %s.%s [%s]" % (module, attr, back), lambda a=(module, attr): fallback(*a), ip, "orbits.constants", "fallback")
