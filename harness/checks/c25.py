"""C25: the plotting scripts draw the spectral responses asked for."""
import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks import c20
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): the real scripts run on generated response files and command lines; the curves, labels and limits "
             "of the figure saved are compared with what was generated")
RULE = "Cases are response files of several platforms and a command line; non-trivial when at least one curve has to be drawn."
ASSUMPTIONS = ["Responses exactly at the minimum response and bands within one scanning step of an end of the range are not judged.",
               "The figure is looked at when it is saved (matplotlib, Agg)."]

# platform, sensor as given on the command line, name in the file name
CRAFT = [["Suomi-NPP", "viirs", "viirs"], ["NOAA-20", "viirs", "viirs"], ["EOS-Aqua", "modis", "modis"], ["Meteosat-10", "seviri", "seviri"],
         ["Himawari-8", "ahi", "ahi"], ["GOES-16", "abi", "abi"], ["FY-3D", "mersi-2", "mersi2"], ["Sentinel-3A", "slstr", "slstr"],
         ["Metop-B", "avhrr-3", "avhrr3"], ["NOAA-19", "avhrr/3", "avhrr3"], ["EOS-Terra", "MODIS", "modis"], ["Sentinel-3B", "olci", "olci"], ["Sentinel-3B", "slstr", "slstr"],
         ["Sentinel-3A", "olci", "olci"], ["NOAA-21", "viirs", "viirs"]]
NAMES = ["X1", "X12", "X", "B one", "q7", "Z"]


@st.composite
def files(draw, most=4):
    """Platforms, the bands of each at a few wavelengths close to each other."""
    out = []
    base = draw(gen.floats(0.6, 11.0).map(lambda v: round(v, 2)))
    for craft in draw(st.lists(st.sampled_from(range(len(CRAFT))), min_size=1, max_size=most, unique=True)):
        bands = []
        for name in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True)):
            bands.append([name, round(base + draw(st.sampled_from([0.0, 0.05, -0.12, 0.2, 0.24, 0.26, -0.3, 0.45, 1.0])) +
                                      draw(gen.floats(0.0, 0.004)), 4),
                          draw(st.lists(st.integers(0, 99), min_size=1, max_size=3))])
        out.append({"craft": craft, "bands": bands})
    return {"base": base, "files": out}


def curve(cwl, seed):
    """A response with some lobes, not falling on round numbers."""
    rng = np.random.default_rng(seed)
    num = 5 + seed % 20
    wvl = np.sort(cwl + rng.uniform(-0.04, 0.04, num))
    resp = rng.uniform(0.0, 1.0, num) ** 2 + 1.7e-5
    return wvl, resp / (resp.max() if seed % 3 else 1.0) * (3.0 if seed % 7 == 6 else 1.0)


def install(case, ctx):
    world = gen.World(ctx)
    out = {}
    for item in case["files"]:
        platform, _, stored = CRAFT[item["craft"]]
        bands = {}
        for name, cwl, seeds in item["bands"]:
            bands[name] = [(*curve(cwl, s), cwl + 0.6 * i) for i, s in enumerate(seeds)]
        world.add_rsr(platform, stored, bands)
        out[(platform, stored)] = bands
    return world, out


class Figure:
    """What was on the figure when it was saved."""

    def __init__(self, fig, name):
        self.name = name
        require(len(fig.axes) == 1, "one plot expected", got=len(fig.axes))
        axes = fig.axes[0]
        self.title = axes.get_title()
        self.xlim, self.ylim = axes.get_xlim(), axes.get_ylim()
        self.lines = []
        for line in axes.get_lines():
            x = np.ma.filled(np.ma.asarray(line.get_xdata(orig=True), dtype=float), np.nan)
            y = np.ma.filled(np.ma.asarray(line.get_ydata(orig=True), dtype=float), np.nan)
            ok = np.isfinite(x) & np.isfinite(y)
            self.lines.append((x[ok], y[ok], line.get_label()))
        legend = axes.get_legend()
        self.legend = [t.get_text() for t in legend.get_texts()] if legend else None


@contextlib.contextmanager
def saving():
    """Collect the figures saved."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    saved, original = [], matplotlib.figure.Figure.savefig

    def savefig(self, fname, *args, **kwargs):
        saved.append(Figure(self, str(fname)))
        kwargs["dpi"] = 10
        return original(self, fname, *args, **kwargs)

    plt.close("all")
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield saved
    finally:
        matplotlib.figure.Figure.savefig = original
        plt.close("all")


def run(name, argv, where):
    """Run the script in a directory; gives the figures saved."""
    cwd = os.getcwd()
    os.chdir(where)
    try:
        with saving() as figs, contextlib.suppress(SystemExit), c20.script(name, *argv):
            pass
    finally:
        os.chdir(cwd)
    return figs


def above(wvl, resp, limit):
    sel = resp > limit
    return wvl[sel], resp[sel]


def match(lines, want, maybe, info):
    """Each curve wanted is drawn once, and no other, except some which may be."""
    def same(line, cur):
        return len(line[0]) == len(cur[0]) and np.allclose(line[0], cur[0], rtol=1e-6, atol=0) and \
            np.allclose(line[1], cur[1], rtol=1e-6, atol=0) and (cur[2] is None or cur[2](line[2]))
    left = list(lines)
    for who, cur in want:
        hit = [i for i, line in enumerate(left) if same(line, cur)]
        require(hit, "a curve is missing or has other values", curve=who, **info)
        left.pop(hit[0])
    for who, cur in maybe:
        hit = [i for i, line in enumerate(left) if same(line, cur)]
        if hit:
            left.pop(hit[0])
    require(not left, "a curve drawn which nobody asked for", label=left and left[0][2], **info)


LIMITS = st.one_of(st.none(), st.tuples(gen.floats(0.1, 3.0), gen.floats(0.2, 4.0)).map(lambda t: [round(t[0], 2), round(t[0] + t[1], 2)]),
                   st.sampled_from([[2.0, 0.5], [-0.25, 1.5], [1.5, -0.5], [0.0, 1.0]]))


@st.composite
def single_cases(draw):
    case = draw(files(most=2))
    case["band"] = draw(st.integers(0, 5))
    case["by"] = draw(st.sampled_from(["-b", "--bandname", "-w", "--wavelength"]))
    case["off"] = draw(st.sampled_from([0.0, 0.02, -0.04, 0.09]))
    case["min"] = draw(st.sampled_from([None, 0.05, 0.2, 0.001]))
    case["xlim"] = draw(LIMITS)
    case["title"] = draw(st.sampled_from([None, "My plot", "A rather long title, " * 8 + "and its end", "0"]))
    return case


@prop(single_cases, quick=50, rule="plot_rsr.py: every detector of one band")
def one_band(case, ctx):
    world, crafts = install(case, ctx)
    item = case["files"][0]
    platform, sensor, stored = CRAFT[item["craft"]]
    name, cwl, seeds = item["bands"][case["band"] % len(item["bands"])]
    argv = [platform, sensor]
    if case["by"] in ("-b", "--bandname"):
        argv += [case["by"], name]
    else:
        wanted = round(cwl + case["off"], 4)
        dist = [abs(b[1] - wanted) for b in item["bands"]]
        if sum(d < 0.1 + 1e-6 for d in dist) != 1:
            ctx.trivial("not one band near the wavelength")
            return
        argv += [case["by"], str(wanted)]
    if case["min"] is not None:
        argv += ["-r", str(case["min"])]
    if case["xlim"]:
        argv += ["-x", *[str(v) for v in case["xlim"]]]
    if case["title"]:
        argv += ["--title", case["title"]]
    figs = run("plot_rsr.py", argv, world.dir)
    require(len(figs) == 1, "one figure expected", got=len(figs), argv=argv)
    limit = 0.01 if case["min"] is None else case["min"]
    want = [(f"{name} {i}", (*above(w, r, limit), None)) for i, (w, r, _) in enumerate(crafts[platform, stored][name])]
    match(figs[0].lines, want, [], {"argv": argv})
    if case["xlim"]:
        require(np.allclose(figs[0].xlim, case["xlim"]), "limits of the x axis", got=figs[0].xlim, argv=argv)
    require(figs[0].title == (case["title"] or "Relative Spectral Responses"), "title", got=figs[0].title, argv=argv)
    path = os.path.join(world.dir, f"{platform}_{sensor}_rsr_band{name}.png")
    require(any(f.endswith(".png") for f in os.listdir(world.dir)), "no figure file")
    require("/" in sensor or os.path.exists(path), "no file of that name", expected=os.path.basename(path), got=figs[0].name)
    ctx.event(f"by {case['by'][:3]} detectors {len(seeds)}")


@st.composite
def composite_cases(draw):
    case = draw(files())
    case["by"] = draw(st.sampled_from(["band", "wavelength", "wavelength", "range", "range"]))
    case["long"] = draw(st.booleans())
    case["others"] = draw(st.lists(st.tuples(st.integers(0, len(CRAFT) - 1), st.integers(0, 5)), max_size=2))
    case["band"] = draw(st.sampled_from(NAMES))
    case["off"] = draw(st.sampled_from([0.0, 0.1, -0.2]))
    case["span"] = [draw(st.sampled_from([-0.5, -0.1, -0.013])), draw(st.sampled_from([0.04, 0.22, 0.5]))]
    case["res"] = draw(st.sampled_from([None, 0.01, 0.02, 0.05]))
    case["exclude"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True)))
    case["min"] = draw(st.sampled_from([None, 0.05, 0.2, 0.001]))
    case["xlim"], case["ylim"] = draw(LIMITS), draw(LIMITS)
    case["title"] = draw(st.sampled_from([None, "My plot", "A rather long title, " * 8 + "and its end", "0"]))
    case["bare"] = draw(st.booleans())
    case["output"] = draw(st.sampled_from([None, "some.png", "other.pdf"]))
    return case


def composite_examples(tier):
    """Several platforms with one instrument and the same bands."""
    bands = [["X1", 3.702, [1, 2]], ["q7", 3.803, [6]], ["Z", 4.101, [4]]]
    for by in ("band", "wavelength", "range"):
        for crafts in ((0, 1, 14), (14, 2, 0), (2, 10, 0, 1)):
            yield {"base": 3.7, "files": [{"craft": c, "bands": bands} for c in crafts], "by": by, "long": True, "others": [], "band": "X1", "off": 0.0,
                   "span": [-0.1, 0.5], "res": None, "exclude": ["Z"] if len(crafts) > 3 else None, "min": None, "xlim": None, "ylim": None, "title": None,
                   "bare": False, "output": None}


@prop(composite_cases, quick=130, examples=composite_examples, rule="composite_rsr_plot.py: bands of several platforms, by name, wavelength or range")
def composite(case, ctx):
    world, crafts = install(case, ctx)
    asked = list(dict.fromkeys(CRAFT[f["craft"]][0] for f in case["files"]))
    sensors = sorted({CRAFT[f["craft"]][1] for f in case["files"]})
    for num, place in case["others"]:
        # platforms without a file or without any of the sensors
        if CRAFT[num][0] not in asked:
            asked.insert(place % (len(asked) + 1), CRAFT[num][0])
    if case["by"] == "band":
        if not any(case["band"] in bands for bands in crafts.values()):
            asked = []
    if not asked:
        ctx.trivial("no platform has the band")
        return
    argv = ["--platform_name" if case["long"] else "-p", *asked, "--sensor" if case["long"] else "-s", *sensors]
    limit = 0.015
    if case["min"] is not None:
        limit = case["min"]
        argv += ["--minimum_response" if case["long"] else "-t", str(limit)]
    res = 0.005 if case["res"] is None else case["res"]
    if case["res"] is not None:
        argv += ["--wavelength_resolution", str(res)]
    if case["xlim"]:
        argv += ["--xlimits" if case["long"] else "-x", *[str(v) for v in case["xlim"]]]
    if case["ylim"]:
        argv += ["--ylimits" if case["long"] else "-y", *[str(v) for v in case["ylim"]]]
    if case["title"]:
        argv += ["--title", case["title"]]
    if case["bare"]:
        argv += ["-no_platform_name_in_legend"]
    if case["output"]:
        argv += ["--filename" if case["long"] else "-o", case["output"]]
    wanted = round(case["base"] + case["off"], 3)
    span = [round(case["base"] + s, 3) for s in case["span"]]
    if case["by"] == "band":
        argv += ["--bandname" if case["long"] else "-b", case["band"]]
        default = f"rsr_band_{case['band']}.png"
    elif case["by"] == "wavelength":
        argv += ["--wavelength" if case["long"] else "-w", str(wanted)]
        default = None
    else:
        argv += ["--range" if case["long"] else "-r", *[str(s) for s in span]]
        default = None
        if case["exclude"]:
            argv += ["--exclude_bandnames", *case["exclude"]]
    want, maybe = [], []
    for platform, name, dets in [(key[0], name, dets) for key in crafts if key[0] in asked for name, dets in crafts[key].items()]:
        if True:
            wvl, resp, cwl = dets[0]

            def label(text, name=name, platform=platform):
                return name in text and (platform in text) is not case["bare"]
            entry = (f"{platform} {name}", (*above(wvl, resp, limit), label))
            if case["by"] == "band":
                if name == case["band"]:
                    want.append(entry)
            elif case["by"] == "wavelength":
                dist = abs(cwl - wanted)
                if abs(dist - 0.25) < 1e-6:
                    maybe.append(entry)
                elif dist < 0.25:
                    want.append(entry)
            elif case["exclude"] and name in case["exclude"]:
                continue
            elif span[0] <= cwl <= span[1] - res:
                want.append(entry)
            elif span[0] - res - 1e-6 < cwl < span[1] + res + 1e-6:
                maybe.append(entry)
    figs = run("composite_rsr_plot.py", argv, world.dir)
    info = {"argv": argv}
    if not any(key[0] in asked for key in crafts):
        require(not any(f.lines for f in figs), "something drawn without any response", **info)
        ctx.trivial("no platform with a file")
        return
    require(len(figs) == 1, "one figure expected", got=len(figs), **info)
    match(figs[0].lines, want, maybe, info)
    if not want:
        ctx.trivial("no band to draw")
    if figs[0].lines:
        require(figs[0].legend == [line[2] for line in figs[0].lines], "legend", got=figs[0].legend, **info)
    if case["xlim"]:
        require(np.allclose(figs[0].xlim, case["xlim"]), "limits of the x axis", got=figs[0].xlim, **info)
    if case["ylim"]:
        require(np.allclose(figs[0].ylim, case["ylim"]), "limits of the y axis", got=figs[0].ylim, **info)
    require(figs[0].title == (case["title"] or "Relative Spectral Responses"), "title", got=figs[0].title, **info)
    name = case["output"] or default
    if name:
        require(os.path.exists(os.path.join(world.dir, name)), "no file of that name", expected=name, got=figs[0].name, **info)
    else:
        require(any(f.endswith(".png") for f in os.listdir(world.dir)), "no figure file", **info)
    ctx.event(f"by {case['by']} platforms {len(asked)} curves {min(len(figs[0].lines), 4)}")


@st.composite
def spectra(draw):
    case = {"space": draw(st.sampled_from(["wavelength", "wavenumber"])), "color": draw(st.sampled_from([None, "red", "green"])),
            "own": draw(st.booleans()), "name": draw(st.sampled_from(["sun.png", "a sun.pdf"])), "first": draw(st.booleans())}
    case["points"] = draw(st.lists(st.tuples(gen.floats(0.25, 4.0).map(lambda v: round(v, 3)), gen.floats(0.1, 2500.0).map(lambda v: round(v, 2))),
                                   min_size=5, max_size=12, unique_by=lambda p: p[0]).map(lambda p: sorted(map(list, p))))
    return case


@prop(spectra, quick=25, rule="SolarIrradianceSpectrum.plot: the whole spectrum in its own units")
def solar_spectrum(case, ctx):
    from pyspectral.solar import SolarIrradianceSpectrum
    where = ctx.dir()
    args = []
    if case["own"]:
        args = [os.path.join(where, "spectrum.txt")]
        with open(args[0], "w") as fp:
            for w, irr in case["points"]:
                fp.write(f"{w} {irr}\n")
    sun = SolarIrradianceSpectrum(*args, wavespace=case["space"])
    x = np.array(getattr(sun, case["space"]))
    y = np.array(sun.irradiance)
    if case["first"]:
        sun.interpolate(ival_wavelength=(1.0, 2.0) if case["space"] == "wavelength" else (5000.0, 10000.0))
    path = os.path.join(where, case["name"])
    options = {} if case["color"] is None else {"color": case["color"]}
    with saving() as figs:
        sun.plot(path, **options)
    require(len(figs) == 1 and len(figs[0].lines) == 1, "one figure with one curve expected", got=len(figs))
    match(figs[0].lines, [("spectrum", (x, y, None))], [], {})
    require(os.path.exists(path), "no file of that name")
    require(sun.wavespace == case["space"] and np.array_equal(x, getattr(sun, case["space"])) and np.array_equal(y, sun.irradiance),
            "plotting changed the spectrum")
    ctx.event(f"{case['space']} own {case['own']}")
