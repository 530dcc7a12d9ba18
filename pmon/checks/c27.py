"""C27: the progress display tells what the run did."""
import contextlib
import io
import os
import re

import numpy as np

from .. import gen, same

RULE = ("one case = a run whose progress display is captured and parsed at every iteration boundary and at the end, continued and "
        "resumed; distinct by scenario signature")
REQUIRED = ["shown calls", "shown beta", "shown ESS", "shown logZ", "shown logP", "shown acc", "shown steps", "shown eff", "shown iterations",
            "calls after the evidence", "silent when switched off", "resumed with the display on", "same results with and without", "resumed display", "continued display"]
CPU = 120
SOFT = dict(quick=200, thorough=1800)
KEYS = dict(calls="calls", beta="beta", ESS="ess", logZ="logz", acc="accept", steps="steps", eff="efficiency")


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(40 * k):
        kern = gen.KERNELS[(i + i // 4) % 4]
        fix = dict(kernel=kern, n_total=[60, 200][i % 2])
        if kern[1]:
            fix["flow"] = "tinymaf"
        c, = gen.scenarios(1, seed, 2700 + i, **fix)
        c.update(i=i, then=["continue", "resume", "evidence"][i % 3])
        out.append(c)
    return out


NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"


def parse(text):
    """The display as a user sees it last: iterations and statistics."""
    lines = [l for l in re.split(r"[\r\n]", text) if l.strip()]
    if not lines:
        return None
    l = lines[-1]
    m = re.search(r"(\d+)it\b", l)
    return dict(n=int(m.group(1)) if m else None, **{k: float(v) for k, v in re.findall(r"(\w+)=(%s)" % NUM, l)})


def near(shown, value, whole=False):
    """Equal to the three digits shown (truncated to an integer if whole)."""
    value = float(value)
    if not np.isfinite(value) or not np.isfinite(shown):
        return str(float(shown)) == str(value)
    return abs(shown - value) <= 0.0055 * abs(value) + (1.0 if whole else 1e-300)


def run(c, m):
    import pocomc
    cls = pocomc.Sampler
    scratch = c["_scratch"]
    out = io.StringIO()
    saves = []
    life = dict(base=0, on=True)

    def judge(s, when):
        d = parse(out.getvalue())
        r = s.results
        if d is None:
            m.violation("nothing is displayed %s" % when)
            return
        for k, name in KEYS.items():
            if k not in d:
                m.violation("the display does not tell %s %s" % (k, when), shown=d)
                continue
            v = s.calls if k == "calls" else r[name][-1]
            m.check("shown " + k, near(d[k], v, k == "ESS"), "%s shown %s is %g, stored is %g" % (k, when, d[k], v), shown=d)
        if "logP" in d:
            v = np.mean(np.asarray(r["logp"][-1], dtype=float) + np.asarray(r["logl"][-1], dtype=float))
            m.check("shown logP", near(d["logP"], v), "logP shown %s is %g, stored is %g" % (when, d["logP"], v), shown=d)
        else:
            m.violation("the display does not tell logP %s" % when, shown=d)
        if d["n"] is not None:
            m.check("shown iterations", 0 <= s.t - life["base"] - d["n"] <= (1 if when != "at the end" else 0),
                    "%d iterations shown %s, %d done" % (d["n"], when, s.t - life["base"]))

    class Watched(cls):
        def save_state(self, path):
            if life["on"] and self.t > life["base"]:
                judge(self, "between iterations")
                if not saves or self.t > 6 and len(saves) < 2:
                    saves.append(os.path.join(scratch, "at%d.state" % self.t))
                    cls.save_state(self, saves[-1])
    kw = dict(save_every=1, n_total=c["run"]["n_total"], n_evidence=0)
    with contextlib.redirect_stderr(out), contextlib.redirect_stdout(io.StringIO()):
        s, like, prior, pool = gen.make_sampler(c, cls=Watched)
        s.run(progress=True, **kw)
        judge(s, "at the end")
        end = same.snapshot(s)
        n = len(re.findall(r"\d+it", out.getvalue()))
        if c["then"] == "continue" or not saves:
            life["base"] = s.t
            out.seek(0), out.truncate()
            t0 = s.t
            s.run(progress=True, **dict(kw, n_total=3 * kw["n_total"]))
            if s.t > t0:
                judge(s, "at the end")
                m.judged("continued display")
        elif c["then"] == "resume":
            life["on"] = False
            out.seek(0), out.truncate()
            s2 = gen.make_sampler(c, cls=cls)[0]
            s2.run(resume_state_path=saves[-1], n_total=kw["n_total"], n_evidence=0)
            life["base"] = 0
            judge(s2, "at the end")
            m.judged("resumed display")
        else:
            life["base"] = s.t
            out.seek(0), out.truncate()
            life["on"] = False
            s.run(progress=True, n_total=1, n_evidence=300)
            d = parse(out.getvalue())
            if d is None or "calls" not in d:
                m.violation("the display does not tell the calls after the evidence")
            else:
                m.check("calls after the evidence", near(d["calls"], s.calls), "%g calls shown, %d made" % (d["calls"], s.calls))
        # switched off: silent, and the same run
        life["on"] = False
        out.seek(0), out.truncate()
        s3 = gen.make_sampler(c, cls=Watched)[0]
        s3.run(progress=False, **kw)
        plain = same.snapshot(s3)
        if c["then"] == "resume" and saves:
            # the caller of the resumed run decides, whatever the run that wrote the file displayed
            gen.make_sampler(c, cls=cls)[0].run(resume_state_path=saves[-1], n_total=kw["n_total"], n_evidence=0, progress=False)
            quiet = os.path.join(scratch, "quiet.state")
            cls.save_state(s3, quiet)
            text = io.StringIO()
            with contextlib.redirect_stderr(text):
                gen.make_sampler(c, cls=cls)[0].run(resume_state_path=quiet, n_total=2 * kw["n_total"], n_evidence=0, progress=True)
            m.check("resumed with the display on", parse(text.getvalue()) is not None,
                    "nothing is displayed with progress=True, resumed from the state of a run without a display")
    m.check("silent when switched off", not re.search(r"\d+it\b|beta=|calls=", out.getvalue()), "shown with progress=False: %r" % out.getvalue()[-200:])
    if c["cfg"].get("random_state") is not None:
        d = same.differ(end, plain)
        m.check("same results with and without", not d, "other %s with a progress display" % ", ".join(d[:5]))
    m.key(gen.sig(c))
    m.note(displays=n, iterations=len(end["results"]["beta"]))
