"""C12: wavenumber conversion."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = "property-based testing (Hypothesis): generated response sets, converted sets compared pair by pair with 1e4/wavelength"
RULE = "Cases are sets of bands and detectors; non-trivial when there is an asymmetric curve on more than two samples."
ASSUMPTIONS = ["Wavelengths are positive and strictly ascending, in micron, unless stated."]


@st.composite
def sets(draw, central=True, mixed=False):
    names = draw(st.lists(st.sampled_from(["M01", "M12", "I4", "ch1", "20", "IR3.9", "VIS0.6", "S7", "odd name"]), min_size=1,
                          max_size=4, unique=True))
    out = {}
    for name in names:
        ndet = draw(st.sampled_from([1, 1, 2, 3, 12]))
        out[name] = {"ndet": ndet, "curves": [draw(gen.curves(gen.floats(0.3, 15.0), npts=draw(st.sampled_from([(3, 40), (3, 40), (3, 40), (150, 400)]))))
                                              for _ in range(min(ndet, 2))],
                     "wn": draw(st.sampled_from(["no", "no", "all", "some"])) if mixed else "no"}
    return {"bands": out, "central": draw(st.booleans()) if central else True, "f4": draw(st.booleans()),
            "sorting": draw(st.sampled_from(["ascending", "ascending", "ascending", "descending", "none"])) if mixed else "ascending",
            "multi_resp": mixed and draw(st.integers(0, 4)) == 0}


def build(case, det_names=True):
    rsr = {}
    for name, info in case["bands"].items():
        rsr[name] = {}
        for i in range(info["ndet"]):
            wvl, resp = gen.build_curve(info["curves"][i % len(info["curves"])])
            resp = resp / (1 + 0.01 * i)
            turn = {"ascending": slice(None), "descending": slice(None, None, -1)}.get(case.get("sorting", "ascending"))
            turn = np.argsort(np.sin(np.arange(len(wvl)) * 7.0)) if turn is None else turn
            wvl, resp = wvl[turn], resp[turn]
            if case["f4"]:
                wvl, resp = wvl.astype("f4"), resp.astype("f4")
            in_wn = info["wn"] == "all" or (info["wn"] == "some" and i == 0)
            det = {"wavenumber": (1e4 / wvl)[::-1].copy(), "response": resp[::-1].copy()} if in_wn else \
                {"wavelength": wvl, "response": resp}
            if case["multi_resp"]:
                det["response"] = {"S": det["response"], "P": det["response"] * np.linspace(0.5, 1.0, len(wvl), dtype=resp.dtype)}
            if case["central"]:
                det["central_wavelength"] = float(gen.central(wvl, resp)) + 0.001 * i
            rsr[name][f"det-{i + 1}"] = det
    return rsr


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and gen.same(a, b)
    return a == b and type(a) is type(b)


def interesting(rsr):
    return any(len(d["response"]) > 2 and not np.allclose(d["response"], d["response"][::-1]) for b in rsr.values() for d in b.values()
               if not isinstance(d["response"], dict))


def pairs_ok(got_wn, got_resp, wvl, resp, info, tol):
    order = np.argsort(wvl)[::-1]
    require(np.shape(got_wn) == np.shape(wvl) and np.shape(got_resp) == np.shape(resp), "number of samples changed", **info)
    got_wn, got_resp = np.asarray(got_wn), np.asarray(got_resp)
    want = 1e4 / np.asarray(wvl, "f8")[order]
    if len(wvl) > 1 and (np.diff(wvl) > 0).all():
        require((np.diff(got_wn.astype("f8")) >= 0).all(), "wavenumbers not ascending", **info)
        require(np.allclose(got_wn, want, rtol=tol, atol=0), "wavenumber is not 1e4/wavelength", got=got_wn[:3], expected=want[:3], **info)
        require(np.array_equal(got_resp, np.asarray(resp)[order]), "response not paired with its wavenumber", **info)
    else:
        # whatever their order, each response stays with its wavenumber
        by = np.argsort(got_wn, kind="stable")
        require(np.allclose(got_wn[by], want, rtol=tol, atol=0), "wavenumber is not 1e4/wavelength", got=got_wn[by][:3], expected=want[:3], **info)
        require(np.array_equal(got_resp[by], np.asarray(resp)[order]), "response not paired with its wavenumber", **info)


@prop(lambda: sets(mixed=True), quick=500, rule="the conversion function, pair by pair")
def conversion(case, ctx):
    from pyspectral.utils import convert2wavenumber
    rsr = build(case)
    keep = copy.deepcopy(rsr)
    got, info = convert2wavenumber(rsr)
    require(equal(rsr, keep), "the input was modified")
    require(info["unit"] == "cm-1" and info["si_scale"] == 100.0, "unit and scale to SI units", got=info)
    require(sorted(got) == sorted(rsr), "bands", got=sorted(got), expected=sorted(rsr))
    tol = 1e-6 if case["f4"] else 1e-11
    for band in rsr:
        require(sorted(got[band]) == sorted(rsr[band]), "detectors", got=sorted(got[band]), expected=sorted(rsr[band]))
        for det, src in rsr[band].items():
            out = got[band][det]
            if "wavenumber" in src:
                require(equal(dict(out), src), "data already in wavenumbers changed", band=band, det=det)
                out["mark"] = 1
                require("mark" not in src, "the result shares the dictionary of the input")
                continue
            if case["multi_resp"]:
                require(sorted(out["response"]) == sorted(src["response"]), "several responses", got=sorted(out["response"]))
                for key, resp in src["response"].items():
                    pairs_ok(out["wavenumber"], out["response"][key], src["wavelength"], resp, {"band": band, "det": det, "response": key}, tol)
                continue
            pairs_ok(out["wavenumber"], out["response"], src["wavelength"], src["response"], {"band": band, "det": det}, tol)
            require("wavelength" not in out, "wavelengths left in the wavenumber data", band=band)
            if "central_wavelength" in src:
                require(out["central_wavelength"] == src["central_wavelength"], "central wavelength lost", band=band, det=det)
            if case.get("sorting", "ascending") != "ascending":
                continue
            wn = np.asarray(out["wavenumber"], "f8")
            require(np.isclose(gen.trapz_ref(np.asarray(out["response"], "f8") * 1e4 / wn ** 2, wn),
                               gen.trapz_ref(src["response"], src["wavelength"]), rtol=0.2), "band integral")
    again, _ = convert2wavenumber(got)
    for band in got:
        for det in got[band]:
            require(equal(dict(again[band][det]), dict(got[band][det])), "a second conversion changed the data")
    if case["multi_resp"]:
        ctx.event("several responses per detector")
    elif not interesting({b: d for b, d in rsr.items()}):
        ctx.trivial("symmetric")
    ctx.event("mixed" if any(i["wn"] != "no" for i in case["bands"].values()) else "wavelengths")


@prop(lambda: sets(central=False), quick=250, rule="converting an instrument in place, integrals, second conversion")
def in_place(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    world = gen.World(ctx)
    src = build(case)
    bands = {b: [(d["wavelength"], d["response"], d["central_wavelength"]) for d in dets.values()] for b, dets in src.items()}
    world.add_rsr("Suomi-NPP", "viirs", bands, dtype="f4" if case["f4"] else "f8")
    this = RelativeSpectralResponse("Suomi-NPP", "viirs")
    before = {b: {d: {k: (v.copy() if hasattr(v, "copy") else v) for k, v in det.items()} for d, det in dets.items()}
              for b, dets in this.rsr.items()}
    held = [this.rsr[b]["det-1"]["response"] for b in bands]
    held_keep = [h.copy() for h in held]
    require(this.si_scale == 1e-6, "scale before", got=this.si_scale)

    def integrals(key, values):
        for band in values:
            got = this.integral(band)
            require(sorted(got) == sorted(values[band]), "integral: detectors", got=sorted(got))
            for det, d in values[band].items():
                want = gen.trapz_ref(d["response"], d[key])
                require(abs(got[det] - want) <= 1e-5 * abs(want), f"integral in {key} space", band=band, det=det, got=got[det],
                        expected=want)

    integrals("wavelength", before)
    this.convert()
    require(this.si_scale == 100.0 and this.unit == "cm-1", "unit", got=(this.unit, this.si_scale))
    require(sorted(this.rsr) == sorted(bands) and list(this.band_names) == list(bands), "bands", got=sorted(this.rsr))
    tol = 1e-6 if case["f4"] else 1e-11
    after = {}
    for band in bands:
        require(sorted(this.rsr[band]) == sorted(before[band]), "detectors", got=sorted(this.rsr[band]))
        for det, old in before[band].items():
            new = this.rsr[band][det]
            pairs_ok(new["wavenumber"], new["response"], old["wavelength"], old["response"], {"band": band, "det": det}, tol)
            require(float(new["central_wavelength"]) == float(old["central_wavelength"]), "central wavelength", band=band)
            wn = np.asarray(new["wavenumber"], "f8")
            want = gen.central(wn, np.asarray(new["response"], "f8"))
            require(abs(float(new["central_wavenumber"]) - want) <= 1e-5 * want, "central wavenumber", band=band, det=det,
                    got=new["central_wavenumber"], expected=want)
            require("wavelength" not in new, "wavelengths left behind", band=band)
        after[band] = {d: {k: np.array(v) for k, v in det.items()} for d, det in this.rsr[band].items()}
    require(all(np.array_equal(a, b) for a, b in zip(held, held_keep)), "arrays obtained before were modified")
    integrals("wavenumber", after)
    try:
        this.convert()
        refused = False
    except NotImplementedError:
        refused = True
    require(refused, "a second conversion was not refused")
    for band in bands:
        for det, old in after[band].items():
            require(sorted(old) == sorted(this.rsr[band][det]) and
                    all(np.array_equal(old[k], this.rsr[band][det][k]) for k in old), "refused conversion changed the data")
    require(this.si_scale == 100.0, "refused conversion changed the scale")
    integrals("wavenumber", after)
    fresh = RelativeSpectralResponse("Suomi-NPP", "viirs")
    require("wavelength" in fresh.rsr[list(bands)[0]]["det-1"] and fresh.si_scale == 1e-6, "another reader is affected")
    if not interesting(src):
        ctx.trivial("symmetric")
    ctx.event("f4" if case["f4"] else "f8")
