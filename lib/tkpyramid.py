"""Runs the histories of spec/PyramidCfg.tla in real Pyramid applications.

The clock is virtual and the modification times are set."""
import collections
import json
import os
import random
import sys
import tempfile
import time
import types
import warnings

warnings.simplefilter("ignore")
NOW = [1000.0]
for _n in ("time", "monotonic", "perf_counter"):
    setattr(time, _n, lambda: NOW[0])
for _n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
    setattr(time, _n, lambda: int(NOW[0] * 1e9))

from pyramid.config import Configurator
from pyramid.request import Request
from pyramid.renderers import RendererHelper, render, render_to_response

PKG = [0]


class Context:
    def __str__(self):
        return "ctx&"


def content(f, base, k, names):
    """the source of version k of a file"""
    i = "%s:%d \u00e4" % (f, k)
    if base["how"] == "imports":
        return '<div><py:import href="%s" alias="m"/>%s ${m.f(v)}</div>' % (names[base["to"]], i)
    if base["how"] == "extends":
        return '<py:extends href="%s"><py:block name="b"><b title="%s">$v</b></py:block></py:extends>' % (names[base["to"]], i)
    return ('<p alt="hello"><py:def function="f(x)"><i>%s</i>$x</py:def>%s<py:block name="b">none</py:block> $v|$context|$renderer_name|${view is None}</p>' % (i, i))


def expected(parts, tr, how, v, ctx, rname, noview):
    t = (lambda s: "T(%s)" % s) if tr else (lambda s: s)
    own = ["%s:%d \u00e4" % (p["f"], p["v"]) for p in parts]
    v = v.replace("<", "&lt;")
    sep = t("|")
    page = lambda i, b: '<p alt="%s">%s%s %s%s%s%s%s%s%s</p>' % (t("hello"), t(i), b, v, sep, ctx.replace("&", "&amp;"), sep, rname, sep, noview)
    if how == "imports":
        return "<div>%s <i>%s</i>%s</div>" % (t(own[0]), t(own[1]), v)
    if how == "extends":
        return page(own[1], '<b title="%s">%s</b>' % (t(own[0]), v))
    return page(own[0], t("none"))


class World:
    def __init__(self, h, R, top):
        self.h, self.R, self.top = h, R, top
        PKG[0] += 1
        self.pkg = "tkpkg%d" % PKG[0]
        dotted = R.random() < .3
        pdir = os.path.join(top, self.pkg)
        os.makedirs(pdir)
        open(os.path.join(pdir, "__init__.py"), "w").close()
        if dotted:
            self.pkg += ".sub"
            pdir = os.path.join(pdir, "sub")
            os.makedirs(pdir)
            open(os.path.join(pdir, "__init__.py"), "w").close()
        self.asset = self.pkg + ":" + R.choice(["t", "t/u"])
        self.dirs = {d: os.path.join(top, "dir" + d) for d in "ABC"}
        self.dirs["P"] = os.path.join(pdir, *self.asset.split(":")[1].split("/"))
        for d in self.dirs.values():
            os.makedirs(d)
        sys.path.insert(0, top)
        self.names = {n: self.name(x) for n, x in h["names"].items()}
        self.mtime = 1.7e9
        for f, v in h["files"].items():
            self.write(f, v)
        self.apps = [None] * len(h["sets"])

    def name(self, x):
        if x["kind"] == "asset":
            return self.asset + "/" + x["b"]
        if x["kind"] == "abs":
            return os.path.join(self.dirs[x["d"]], x["b"])
        return x["b"]

    def path(self, f):
        d, b = f.split("/", 1)
        return os.path.join(self.dirs[d], *b.split("/"))

    def write(self, f, v):
        p = self.path(f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as fd:
            fd.write(content(f, self.h["bases"][f.split("/", 1)[1]], v, self.names))
        self.mtime += self.R.choice([5, 1, .01])
        # not necessarily later than before
        t = self.mtime if self.R.random() < .7 else 3.4e9 - self.mtime
        os.utime(p, (t, t))

    # -- spelling ----------------------------------------------------------
    def flag(self, on):
        return self.R.choice([True, "true", "True", "yes", "on", "1", "t", 1] if on else [False, "false", "no", "0", "off", "f", "", 0])

    def dirspec(self, d):
        if d == "P":
            return self.asset + self.R.choice(["", "", "/"])
        p = self.dirs[d]
        return self.R.choice([p, p, p + "/", os.path.relpath(p)])

    def ext(self, e):
        return self.R.choice([e, e[1:]])

    def sequence(self, xs):
        return self.R.choice([list, tuple, " ".join, "\n".join, lambda x: "\n  " + "\n  ".join(x) + "\n"])(xs)

    def settings(self, s):
        r = {}
        if s["exts"] or self.R.random() < .1:
            r["tonnikala.extensions"] = self.sequence([self.ext(e) for e in s["exts"]])
        if s["paths"] or self.R.random() < .1:
            r["tonnikala.search_paths"] = self.sequence([self.dirspec(d) for d in s["paths"]])
        if s["reload"]:
            r["tonnikala.reload"] = self.flag(s["reload"] == "T")
        elif self.R.random() < .2:
            r["tonnikala.reload"] = None
        if s["pyramid"] == "T":
            r[self.R.choice(["pyramid.reload_templates", "pyramid.reload_templates", "reload_templates", "pyramid.reload_all", "reload_all"])] = self.R.choice(["true", True])
        elif s["pyramid"] == "F":
            r["pyramid.reload_templates"] = self.flag(False)
        if s["l10n"]:
            r["tonnikala.l10n"] = self.flag(s["l10n"] == "T")
        elif self.R.random() < .2:
            r["tonnikala.l10n"] = None
        return r

    # -- applications --------------------------------------------------------
    def app(self, a):
        if self.apps[a] is None:
            auto = self.R.random() < .4
            c = Configurator(settings=self.settings(self.h["sets"][a]), autocommit=auto, root_factory=lambda request: Context())
            c.add_renderer(".other", lambda info: lambda value, system: "other")
            c.include("tonnikala.pyramid")
            self.apps[a] = dict(c=c, auto=auto, mine=set(), ready=None)
        return self.apps[a]

    def directive(self, op):
        x = self.app(op["a"] - 1)
        o, v = op["o"], op.get("v")

        def call(c):
            if o == "ext":
                c.add_tonnikala_extensions(*[self.ext(e) for e in v])
            elif o == "paths":
                c.add_tonnikala_search_paths(*[self.dirspec(d) for d in v])
            elif o == "reload":
                c.set_tonnikala_reload(v)
            elif o == "l10n":
                c.set_tonnikala_l10n(v)
            else:
                c.include("tonnikala.pyramid")
        if o == "ext":
            if x["mine"] & set(v) and not x["auto"]:
                x["c"].commit()     # else a conflict, in Pyramid
            x["mine"] |= set(v)
        if self.R.random() < .25:
            def nested(config):
                call(config)
            m = types.ModuleType("tkpkg_nested%d" % self.R.randrange(10 ** 9))
            m.__file__ = os.path.join(self.top, m.__name__ + ".py")
            sys.modules[m.__name__] = m
            nested.__module__ = m.__name__
            if o == "ext" and not x["auto"]:
                x["c"].commit()
            x["c"].include(nested)
        else:
            call(x["c"])
        if not x["auto"] and self.R.random() < .2:
            x["c"].commit()

    def ready(self, a):
        x = self.app(a)
        if x["ready"] is None:
            x["value"] = None
            x["c"].add_route("r", "/")
            x["c"].add_view(lambda request: self.view(request), route_name="r", renderer="string")
            x["ready"] = x["c"].make_wsgi_app()
        return x

    def view(self, request):
        request.override_renderer = self.now["name"]
        return self.now["value"]

    def render(self, op):
        R = self.R
        x = self.ready(op["a"] - 1)
        reg = x["c"].registry
        name = self.names[op["n"]]
        ctx = Context()
        v = "v<%d" % R.randrange(100)
        value = dict(v=v, gettext=lambda s: "T(%s)" % s)
        shown, rname = "ctx&", name
        if op["v"] == "over":
            value.update(context="mine", renderer_name="my name")
            shown, rname = "mine", "my name"
        elif op["v"] == "bad":
            value = R.choice([None, 5, "string", object(), [1], ["abc"], {1}, 1.5, True, lambda: {}])
        if isinstance(value, dict):
            value = R.choice([dict, collections.OrderedDict, collections.UserDict, lambda d: collections.ChainMap({}, d)])(value)
        before = dict(value) if op["v"] != "bad" else None
        req = Request.blank("/")
        req.registry = reg
        req.context = ctx
        how = R.choice(["helper", "view", "render", "response", "wsgi", "fragment", "renderer"])
        noview = True
        out = exc = None
        try:
            if how == "helper":
                system = dict(view=None, renderer_name=name, renderer_info=None, context=ctx, request=req)
                out = RendererHelper(name, registry=reg).render(value, system, request=req)
            elif how == "view":
                noview = False
                system = dict(view=len, renderer_name=name, renderer_info=None, context=ctx, request=req)
                out = RendererHelper(name, registry=reg).render_to_response(value, system, request=req).text
            elif how == "render":
                out = render(name, value, request=req)
            elif how == "response":
                out = render_to_response(name, value, request=req).text
            elif how == "wsgi":
                noview = False
                self.now = dict(name=name, value=value, ctx=ctx)
                out = Request.blank("/").get_response(x["ready"]).text
            else:
                system = dict(view=None, renderer_name="another" + os.path.splitext(name)[1] if how == "fragment" else name, renderer_info=None, context=ctx, request=req)
                r = RendererHelper(system["renderer_name"], registry=reg).renderer
                if how == "fragment":
                    out = r.fragment(name, value, system)
                    out = str(out)
                else:
                    out = r(value, system)
                    if type(out) is not str:
                        return how, "not a string: %r" % type(out)
        except Exception as e:
            exc = e
        if before is not None and dict(value) != before:
            return how, "the view's dictionary has changed"
        want = op["res"]
        if want == "foreign":
            # Pyramid knows no such renderer
            ok = isinstance(exc, ValueError) and "No such renderer" in str(exc) or out == "other" or how == "fragment" and isinstance(exc, AttributeError)
            return how, None if ok else "expected no rendering by Tonnikala, got %r" % (exc or out,)
        if want == "missing":
            return how, None if isinstance(exc, OSError) else "expected a file that is not found, got %r" % (exc or out,)
        if want == "value":
            ok = isinstance(exc, ValueError) and "No such renderer" not in str(exc)
            return how, None if ok else "expected ValueError for %r, got %r" % (value, exc or out)
        exp = expected(op["parts"], op["tr"], self.h["bases"][self.h["names"][op["n"]]["b"]]["how"], v, shown, rname, noview)
        if how == "wsgi":
            self.now = None
        return how, None if out == exp and exc is None else "expected %r, got %r" % (exp, exc or out)

    def run(self):
        for j in range(len(self.apps)):
            if self.R.random() < .7:
                self.app(j)
        did = []
        for op in self.h["hist"]:
            NOW[0] += 100
            o = op["o"]
            if o == "write":
                self.write(op["f"], op["ver"])
            elif o == "delete":
                os.unlink(self.path(op["f"]))
            elif o == "render":
                how, bad = self.render(op)
                did.append(how)
                if bad:
                    return did, "%s (through %s): %s" % (op["n"], how, bad)
            else:
                self.directive(op)
        return did, None

    def close(self):
        sys.path.remove(self.top)
        for m in [m for m in sys.modules if m.startswith("tkpkg")]:
            del sys.modules[m]


def run(task, base):
    res = dict(renders=0, ways={}, bad=[])
    R = random.Random(task["seed"])
    for h in task["hists"]:
        top = tempfile.mkdtemp(dir=base)
        s = R.randrange(10 ** 9)
        w = World(h, random.Random(s), top)
        try:
            did, bad = w.run()
        finally:
            w.close()
        res["renders"] += len(did)
        for x in did:
            res["ways"][x] = res["ways"].get(x, 0) + 1
        if bad and len(res["bad"]) < 5:
            res["bad"].append(dict(what=bad, seed=s, **h))
        elif bad:
            res["bad"].append(dict(what=bad, seed=s, sets=h["sets"], hist=[]))
    return res


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    base = os.path.abspath(tempfile.mkdtemp(dir="."))
    res = [run(t, base) for t in tasks]
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
