"""C26: logging is switched on and off."""
import contextlib
import io
import logging
import sys

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks import c16, c17
from harness.core import prop, require

TECHNIQUE = "model-based property testing (Hypothesis): generated sequences of switching and logging against a model of what reaches standard error"
RULE = "Cases are sequences of switching logging on (with a level) or off and of messages; non-trivial when a message is sent after a second switch."
ASSUMPTIONS = ["Others may add handlers, but set no levels and no handler writing to standard error."]

LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
STEP = st.one_of(st.tuples(st.sampled_from(["root handler", "own handler"]), st.sampled_from(["verif.one", "verif.two"])),
                 st.tuples(st.just("on"), st.sampled_from([None, *LEVELS])), st.tuples(st.just("off"), st.none()), st.tuples(st.just("debug"), st.none()),
                 st.tuples(st.just("say"), st.tuples(st.sampled_from(LEVELS), st.sampled_from(["verif.one", "verif.two", "verif"]))),
                 st.tuples(st.just("say"), st.tuples(st.sampled_from(LEVELS), st.sampled_from(["verif.one", "verif.two", "verif"]))))


@contextlib.contextmanager
def fresh():
    """The logging of a new process."""
    root = logging.getLogger("")
    keep = list(root.handlers), root.level
    library = logging.getLogger("pyspectral")
    muted = library.level
    disabled = logging.root.manager.disable
    old = sys.modules.pop("pyspectral.utils", None)
    err = io.StringIO()
    try:
        logging.disable(logging.NOTSET)
        root.handlers = []
        root.setLevel(logging.WARNING)
        library.setLevel(logging.NOTSET)
        for name in list(logging.root.manager.loggerDict):
            if name.startswith("verif"):
                del logging.root.manager.loggerDict[name]
        with contextlib.redirect_stderr(err):
            import importlib
            utils = importlib.import_module("pyspectral.utils")
            yield utils, err
    finally:
        logging.disable(disabled)
        root.handlers, root.level = keep[0], keep[1]
        root.setLevel(keep[1])
        library.setLevel(muted)
        if old is not None:
            sys.modules["pyspectral.utils"] = old
            sys.modules["pyspectral"].utils = old


def pairs(tier):
    say = [["say", [level, "verif.one"]] for level in LEVELS]
    return [[["root handler", "verif.one"]] * before + [["on", one]] + [["root handler", "verif.one"]] * between + [["on", two], *say, ["off", None], *say, ["on", one], *say]
            for one in LEVELS for two in LEVELS for before in (0, 1) for between in (0, 1)]


@prop(lambda: st.lists(STEP, min_size=1, max_size=12).map(lambda steps: [list(s) for s in steps]), quick=1500,
      rule="histories of switching and messages; every pair of levels with a handler of the user's in between", examples=pairs)
def switching(case, ctx):
    with fresh() as (utils, err):
        level, switches, judged, own = None, 0, 0, []
        for num, (what, arg) in enumerate(case):
            before = len(err.getvalue())
            if what == "on":
                utils.logging_on(*([] if arg is None else [arg]))
                level = logging.WARNING if arg is None else arg
                switches += 1
            elif what == "debug":
                utils.debug_on()
                level = logging.DEBUG
                switches += 1
            elif what == "off":
                utils.logging_off()
                level = None
                switches += 1
            elif what == "root handler":
                # a handler of the user's, writing elsewhere
                logging.getLogger("").addHandler(logging.StreamHandler(io.StringIO()))
                ctx.event("handler of the user's")
            elif what == "own handler":
                handler = logging.StreamHandler(io.StringIO())
                logging.getLogger(arg).addHandler(handler)
                own.append((arg, handler))
            else:
                text = f"message number {num} of the history" + (", 100 % of {it}" if num % 2 else "")
                log = utils.get_logger(arg[1])
                require(log.name == arg[1], "logger of another name", got=log.name)
                require(all(h in log.handlers for name, h in own if name == arg[1]), "a handler of the user's is gone", logger=arg[1])
                mine = [h.stream for name, h in own if name == arg[1]]
                seen = [s.getvalue().count(text) for s in mine]
                log.log(arg[0], text)
                if level is not None:
                    reached = [s.getvalue().count(text) - n for s, n in zip(mine, seen)]
                    require(set(reached) <= {int(arg[0] >= level)}, "messages below the level reach (or others miss) a handler of the user's logger",
                            step=num, got=reached, level=level, said=arg)
                times = err.getvalue()[before:].count(text)
                want = int(level is not None and arg[0] >= level)
                require(times == want, "message written another number of times", step=num, got=times, expected=want, level=level, said=arg)
                judged += switches > 1
                continue
            require(err.getvalue()[before:] == "", "switching writes something", got=err.getvalue()[before:][:200])
    if not judged:
        ctx.trivial("no message after a second switch")
    ctx.event(f"switches {min(switches, 5)}")


def calculator(case, n):
    from pyspectral.near_infrared_reflectance import Calculator
    calc = Calculator("Suomi-NPP", "viirs", "M12", masking_limit=case["limit"])
    refl = calc.reflectance_from_tbs(np.linspace(20.0, 95.0, n), np.linspace(290.0, 310.0, n), np.linspace(260.0, 290.0, n), tb_ir_co2=np.linspace(250.0, 280.0, n))
    return [refl, calc.emissive_part_3x()]


def converter(case, n):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    conv = RadTbConverter("Suomi-NPP", "viirs", "M12", wavespace="wavenumber" if case["limit"] is None else "wavelength")
    return conv.radiance2tb(conv.tb2radiance(np.linspace(220.0, 330.0, n))["radiance"])


def solar(case, n):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.solar import SolarIrradianceSpectrum
    return SolarIrradianceSpectrum().inband_solarflux(RelativeSpectralResponse("Himawari-8", "ahi").rsr["ch1"]["det-1"])


def rayleigh(case, n, band=None):
    from pyspectral.rayleigh import Rayleigh
    ang = np.linspace(0.0, 85.0, n).reshape(1, -1)
    return Rayleigh("Himawari-8", "ahi").get_reflectance(ang, ang, ang, case["name"] if band is None else band, np.full((1, n), 30.0))


def limb(case, n):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    return AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(np.linspace(0.0, 95.0, n).reshape(1, -1), "M15", np.full((1, n), 280.0))


def reader(case, n):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    rsr = RelativeSpectralResponse("Himawari-8", "AHI" if n > 3 else "viirs")
    return [rsr.rsr[case["name"]]["det-1"][k] for k in ("wavelength", "response")]


def planck(case, n):
    from pyspectral.blackbody import blackbody, blackbody_wn
    temps = np.linspace(-10.0, 300.0, n)
    return [blackbody(np.array([4e-6, 11e-6]), temps), blackbody_wn(np.array([90000.0, 250000.0]), temps)]


def sort(case, n):
    from pyspectral.utils import sort_data
    return sort_data(np.r_[np.arange(n), 0.0], np.arange(n + 1.0))


def settings(case, n):
    from pyspectral.config import get_config
    return len(get_config())


DO = {"calculator": calculator, "converter": converter, "solar": solar, "rayleigh": rayleigh, "rayleigh number": lambda case, n: rayleigh(case, n, case["value"]),
      "limb": limb, "reader": reader, "config": settings, "planck": planck, "sort": sort}
WORK = ["calculator", "converter", "solar", "rayleigh", "rayleigh number", "limb", "reader", "config", "planck", "sort"]


@prop(lambda: st.fixed_dictionaries({
    "work": st.sampled_from(WORK), "limit": st.sampled_from([None, 80.0, 88]), "n": st.integers(1, 12), "value": st.sampled_from([0.45, 0.55, 1, 2.0]),
    "name": st.sampled_from(["ch1", "nope"]), "level": st.sampled_from(LEVELS)}), quick=120,
    examples=lambda tier: [{"work": w, "limit": lim, "n": n, "value": 0.55, "name": "ch1", "level": logging.DEBUG}
                           for w in WORK for lim in (None, 88) for n in (2, 12)],
    rule="the library's own messages can be written, and writing them changes no result")
def messages(case, ctx):
    world = gen.World(ctx)
    grid, resp = gen.build_curve({"kind": "gauss", "center": 3.75, "width": 0.02, "n": 30, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    world.add_rsr("Suomi-NPP", "viirs", {"M12": [(grid, resp, 3.75)]})
    vis, vresp = gen.build_curve({"kind": "gauss", "center": 0.55, "width": 0.02, "n": 30, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    world.add_rsr("Himawari-8", "ahi", {"ch1": [(vis, vresp, 0.55)]})
    c16.write_lut(world, c17.ramp_table())
    n = case["n"]

    def work():
        try:
            return np.asarray(DO[case["work"]](case, n), dtype="f8").tolist()
        except (KeyError, FileNotFoundError) as err:
            return type(err).__name__

    with fresh() as (utils, err):
        utils.logging_off()
        quiet = work()
        require("Logging error" not in err.getvalue(), "messages with logging off", got=err.getvalue()[:300])
        utils.logging_on(case["level"])
        before = len(err.getvalue())
        loud = work()
        text = err.getvalue()[before:]
    require("Logging error" not in text, "a message of the library can't be written", work=case["work"], got=text[:600])
    require(np.array_equal(quiet, loud, equal_nan=True) if not isinstance(quiet, str) else quiet == loud, "results change when logging is on",
            work=case["work"], off=quiet, on=loud)
    if not text:
        ctx.trivial("nothing written")
    ctx.event(case["work"])
