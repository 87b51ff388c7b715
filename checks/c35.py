"""Monitor of the diagnostic figures: every curve on the figure that is saved is compared with the table and the model.

`Figure.savefig` is hooked: at that moment all lines and bands of every panel are read back from the real
matplotlib figure and matched one to one with the curves the figure is documented to show, recomputed from the
table (nearest row chosen by the check) and from the population prediction of the right halo type for that row.
Tables have shuffled rows, missing bins and rows of other times that would be nearer in mass.
"""
import os
import shutil
import tempfile

import numpy as np

from harness import gen
from harness.env import rng_for

RULE = "distinct (figure, table layout, parameter vector) figures whose curves were judged"
ASSUMPTIONS = ["matplotlib is installed", "the figures use random key 0 and a z=0 age of 13.79 Gyr"]
LEVEL = "exploration"

NT = 12


def table(rng, kind, layout):
    """Target table as the loader returns it; `layout` says which rows exist and in which order."""
    from astropy.table import Table

    tobs = np.array([2.7, 3.2, 3.55, 4.1, 5.4, 6.9, 8.3, 9.8, 11.2, 12.6, 13.79]) + rng.uniform(-0.03, 0.03, 11)
    tobs[-1] = 13.79
    lgms = np.arange(11.05, 14.9 if kind == "cens" else 13.9, 0.29)
    rows = [(m + rng.uniform(-0.1, 0.1), t) for t in tobs for m in lgms]
    if layout == "sparse":  # keep a few rows at z=0 and at z=2, thin out the rest
        rows = [r for r in rows if rng.uniform() < 0.35 or (r[1] > 13.5 and rng.uniform() < 0.5)]
        rows += [(rng.uniform(11, 14), 13.7), (rng.uniform(11, 14), 3.1)]
    if layout == "single":
        rows = [(12.1, 13.79), (12.9, 3.05), (13.4, 6.0)]
    if layout != "sorted":
        rows = [rows[i] for i in rng.permutation(len(rows))]
    m, t = np.array(rows).T
    tt = np.array([np.linspace(0.5, x, NT) for x in t])
    mean = m[:, None] + rng.uniform(1.5, 5, len(m))[:, None] * np.log10(tt / t[:, None])
    std = np.abs(rng.normal(0.25, 0.1, mean.shape)) + 0.01
    d = Table(dict(lgm_obs=m, t_obs=t, t_table=tt, mean_log_mah=mean, std_log_mah=std))
    # a column the figures must not take by mistake
    d["mean_log_mah_rescaled"] = mean + 0.3
    d["n_samples"] = np.full(len(m), 300)
    return d


def nearest(x):
    """Index of the smallest value, or None when two are too close to call."""
    x = np.asarray(x, "f8")
    i = int(np.argmin(x))
    return i if np.sum(x <= x[i] + 1e-6) == 1 else None


def close(a, b, tol):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


class Saved:
    """Everything drawn on the figures saved while the hook is installed."""

    def __init__(self):
        import matplotlib.figure as mf

        self.mf, self.orig, self.figs = mf, mf.Figure.savefig, []
        me = self

        def savefig(fig, fname, *a, **k):
            panels = []
            for ax in fig.axes:
                lines = [(np.array(l.get_xdata(), "f8"), np.array(l.get_ydata(), "f8"), l.get_color(), l.get_linestyle()) for l in ax.lines]
                bands = [np.array(c.get_paths()[0].vertices) for c in ax.collections]
                panels.append(dict(lines=lines, bands=bands, xlim=ax.get_xlim(), ylim=ax.get_ylim(), title=ax.get_title()))
            me.figs.append((str(fname), panels))
            k["dpi"] = 20  # the pixels are not judged
            k.pop("bbox_inches", None)
            k.pop("bbox_extra_artists", None)
            return me.orig(fig, fname, *a, **k)

        mf.Figure.savefig = savefig

    def close(self):
        self.mf.Figure.savefig = self.orig


def band(t, lo, hi, verts):
    """Does the polygon run along both edges?"""
    pts = {(round(float(x), 5), round(float(y), 5)) for x, y in verts}
    have = np.array(sorted(pts))
    for y in (lo, hi):
        for a, b in zip(t, np.asarray(y)):
            if not np.any((np.abs(have[:, 0] - a) < 1e-4) & (np.abs(have[:, 1] - b) < 1e-4)):
                return False
    return float(verts[:, 1].min()) >= np.min(lo) - 1e-4 and float(verts[:, 1].max()) <= np.max(hi) + 1e-4


def take(lines, t, y, tol):
    """Remove and return one line with that data."""
    for i, l in enumerate(lines):
        if close(l[0], t, 1e-5) and close(l[1], y, tol):
            return lines.pop(i)
    return None


def body(mon):
    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib

    matplotlib.use("Agg", force=True)
    import jax.random as jran
    from matplotlib import cm, colors, pyplot as plt

    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms
    from diffmah.diffmahpop_kernels.diagnostics import plot_bestfit_cen_mahs as pc, plot_bestfit_sat_mahs as ps

    rng = rng_for(mon)
    lgt0 = np.log10(13.79)
    FIGS = dict(
        cens=(mc, [("z0", pc.plot_singlepanel_mahs_centrals_z0, (11.25, 12.75, 14.25)), ("z2", pc.plot_singlepanel_mahs_centrals_z2, (11.25, 12.75, 14.25)), ("residuals", pc.plot_cen_mah_4panel_residuals, (11.0, 14.5))]),
        sats=(ms, [("z0", ps.plot_singlepanel_mahs_satellites_z0, (11.25, 12.25, 13.5)), ("z2", ps.plot_singlepanel_mahs_satellites_z2, (11.25, 12.75, 14.25)), ("residuals", ps.plot_sat_mah_4panel_residuals, (11.0, 13.5))]),
    )
    NAMES = dict(z0="diffmahpop_mu_var_single_panel_{}_z0.png", z2="diffmahpop_mu_var_single_panel_{}_z2.png", residuals="diffmahpop_mu_var_4panel_residuals_{}.png")
    quick = mon.tier == "quick"
    layouts = ["shuffled", "sparse", "sorted", "single"]
    nrep = 4 if quick else 200
    for rep in range(nrep):
        if rep > 3 and not mon.more():
            break
        layout = layouts[rep % 4]
        params, mode = gen.pop_params(rng)
        for kind, (mod, figs) in FIGS.items():
            data = table(rng, kind, layout)
            before = {k: np.array(data[k]) for k in data.colnames}
            memo = {}

            def pred(row):
                key = tuple(before["t_table"][row]) + (before["lgm_obs"][row], before["t_obs"][row])
                if key not in memo:
                    r = mod.predict_mah_moments_singlebin(params, before["t_table"][row], before["lgm_obs"][row], before["t_obs"][row], jran.key(0), lgt0)
                    memo[key] = np.asarray(r[0], "f8"), np.asarray(r[1], "f8")
                return memo[key]

            for name, func, masses in figs:
                w = dict(kind=kind, figure=name, layout=layout, mode=mode)
                mon.context = [dict(rep=rep, params=params._asdict(), lgm_obs=before["lgm_obs"], t_obs=before["t_obs"], **w)]
                scratch = tempfile.mkdtemp(prefix="c35_")
                out = os.path.join(scratch, "a b", "figs") if rep % 2 else os.path.join(scratch, "figs")
                if rep % 3 == 1:
                    os.makedirs(out)
                    open(os.path.join(out, "keep.png"), "w").write("mine")
                hook = Saved()
                try:
                    func(data, params, drn=out)
                finally:
                    hook.close()
                    plt.close("all")
                files = sorted(os.listdir(out)) if os.path.isdir(out) else []
                want = sorted([NAMES[name].format(kind)] + (["keep.png"] if rep % 3 == 1 else []))
                mon.check(files == want, "exactly the figure's own file is written to the requested directory", files=files, want=want, **w)
                if rep % 3 == 1:
                    mon.check(open(os.path.join(out, "keep.png")).read() == "mine", "other files are untouched", **w)
                shutil.rmtree(scratch)
                after = {k: np.array(data[k]) for k in data.colnames}
                mon.check(list(after) == list(before) and all(np.array_equal(before[k], after[k]) for k in before), "the table is not modified", **w)
                mon.check(len(hook.figs) == 1, "one figure is saved", saved=len(hook.figs), **w)
                panels = hook.figs[0][1]
                if name == "residuals":
                    mon.check(len(panels) == 4, "four panels", panels=len(panels), **w)
                    grid = np.linspace(masses[0], masses[1], 15)
                    cols = cm.coolwarm(np.linspace(0, 1, 15))
                    for panel, tp in zip(panels, (4.0, 7.0, 10.0, 13.0)):
                        mon.check(f"{tp:.1f}" in panel["title"], "panel titled with its time", title=panel["title"], time=tp, **w)
                        lines = [l for l in panel["lines"] if np.any(l[1] != 0)]
                        mon.check(len(lines) == 15, "one residual curve per mass and a zero line", curves=len(lines), time=tp, **w)
                        left, ambiguous = list(lines), 0
                        for m, c in zip(grid, cols):
                            row = nearest(np.abs(before["t_obs"] - tp) + np.abs(before["lgm_obs"] - m))
                            if row is None:
                                ambiguous += 1
                                mon.skip("two rows equally near")
                                continue
                            y = pred(row)[0] - before["mean_log_mah"][row]
                            # several masses may share a row: take the one of this mass's colour if there is one
                            same = [l for l in left if close(l[0], before["t_table"][row], 1e-5) and close(l[1], y, 2e-4 * (1 + np.abs(y)))]
                            ok = [l for l in same if np.allclose(colors.to_rgba(l[2])[:3], c[:3], atol=0.02)]
                            mon.check(bool(same), "residual panel shows predicted minus target mean of the nearest row", mass=m, time=tp, row_mass=before["lgm_obs"][row], row_time=before["t_obs"][row], expected=y, drawn=[l[1] for l in lines[:3]], **w)
                            mon.check(bool(ok), "curve coloured by its mass from blue (low) to red (high)", mass=m, time=tp, **w)
                            left = [l for l in left if l is not ok[0]]
                            mon.seen("residual curves judged")
                        mon.check(len(left) == ambiguous, "no other curves", extra=len(left), time=tp, **w)
                else:
                    mon.check(len(panels) == 1, "one panel", panels=len(panels), **w)
                    sel = np.flatnonzero(before["t_obs"] > 13.5) if name == "z0" else np.flatnonzero(np.abs(before["t_obs"] - 3) < 0.5)
                    lines, bands = list(panels[0]["lines"]), list(panels[0]["bands"])
                    mon.check(len(lines) == 12 and len(bands) == 3, "three masses with a target mean, a band and three predicted curves each", lines=len(lines), bands=len(bands), **w)
                    for m in masses:
                        i = nearest(np.abs(before["lgm_obs"][sel] - m))
                        if i is None:
                            mon.skip("two rows equally near")
                            continue
                        row = sel[i]
                        t, mu, sd = before["t_table"][row], before["mean_log_mah"][row], before["std_log_mah"][row]
                        pm, psd = pred(row)
                        ww = dict(mass=m, row_mass=before["lgm_obs"][row], row_time=before["t_obs"][row], **w)
                        mon.check(take(lines, t, mu, 1e-5) is not None, "target mean of the nearest row at the figure's redshift", **ww)
                        mon.check(any(band(t, mu - sd, mu + sd, v) for v in bands), "target one-sigma band of that row", **ww)
                        for y, what in ((pm, "mean"), (pm - psd, "mean minus scatter"), (pm + psd, "mean plus scatter")):
                            mon.check(take(lines, t, y, 2e-4 * (1 + np.abs(y))) is not None, f"predicted {what} for that row", expected=y, **ww)
                        mon.seen("single-panel masses judged")
                mon.case(kind, name, layout, rep)
                mon.seen("figures judged")
        mon.sample(layout=layout, mode=mode, rows=len(data))
    mon.require("figures judged", 20)
    mon.require("residual curves judged", 200)
