"""C24: conversion of text attributes."""
import numpy as np
from hypothesis import strategies as st

from harness.core import prop, require

TECHNIQUE = "property-based testing (Hypothesis): round trip of generated texts through all containers, rejection of everything else"
RULE = "Cases are texts with a container, or non-text values; non-trivial when the text is not plain ASCII, empty or the value is rejected."
ASSUMPTIONS = ["Texts without NUL characters (numpy strips them) and without lone surrogates (not encodable as UTF-8).",
               "Byte strings in object arrays hold UTF-8 text."]

TEXTS = st.one_of(st.text(st.characters(exclude_characters="\x00", exclude_categories=("Cs",)), max_size=30),
                  st.sampled_from(["", " ", "hey", "b'x'", "µm", "M12", "1", "Relative Spectral Responses for VIIRS", "日本", "a\n", " x ", "None", "\ufeffM12", "M12\ufeff", "\ufeff", "\U0001F6F0", "é" * 200]))
FORMS = ["str", "bytes", "np.str_", "np.bytes_", "0d U", "0d S", "1d U", "1d S", "2d U", "2d S", "0d object str", "1d object str", "0d object bytes",
         "1d object bytes", "3d object str", "wide U", "wide S", "subclass", "4d S"]


def build(text, form):
    raw = text.encode("utf-8")
    wide = max(1, len(raw)) + 3
    if form == "str":
        return text
    if form == "bytes":
        return raw
    if form == "np.str_":
        return np.str_(text)
    if form == "np.bytes_":
        return np.bytes_(raw)
    if form == "subclass":
        return type("S", (str,), {})(text)
    if "object" in form:
        arr = np.empty((1,) * int(form[0]), dtype=object)
        arr[(0,) * int(form[0])] = raw if "bytes" in form else text
        return arr
    if form == "wide U":
        return np.array([text], dtype=f"U{wide}")
    if form == "wide S":
        return np.array([raw], dtype=f"S{wide}")
    dims = int(form[0])
    arr = np.array(text if form.endswith("U") else raw, dtype=None if text else form[-1] + "1")
    return arr.reshape((1,) * dims)


@prop(lambda: st.fixed_dictionaries({"text": TEXTS, "form": st.sampled_from(FORMS)}), quick=1500, rule="text in every container",
      examples=lambda tier: [{"text": t, "form": f} for f in FORMS for t in ("", "hey", "µm ", "日本", "\ufeffM12")])
def texts(case, ctx):
    from pyspectral.utils import bytes2string, convert2str, np2str
    text, form = case["text"], case["form"]
    value = build(text, form)
    got = convert2str(value)
    require(isinstance(got, str) and got == text, "convert2str", form=form, got=got, expected=text)
    require(convert2str(got) == text and isinstance(convert2str(got), str), "converting twice", got=convert2str(got))
    if form not in ("bytes", "np.bytes_"):
        got = np2str(value)
        require(isinstance(got, str) and got == text, "np2str", form=form, got=got, expected=text)
        require(np2str(got) == text, "np2str twice")
    if form in ("bytes", "np.bytes_"):
        got = bytes2string(value)
        require(isinstance(got, str) and got == text, "bytes2string", form=form, got=got, expected=text)
    else:
        require(bytes2string(value) is value, "bytes2string changed a value which is not bytes", form=form)
    if form == "np.bytes_":
        got = np2str(value)
        require(isinstance(got, str) and got == text, "np2str of numpy bytes", got=got, expected=text)
    if text.isascii() and text:
        ctx.trivial("plain text")
    ctx.event(form)


OTHER = ["int", "float", "none", "list", "dict", "tuple", "bool", "np.int", "np.float", "arr float", "arr int", "arr bool", "0d float", "two U", "two S",
         "two object", "2x2 S", "empty U", "empty object", "empty S", "complex", "list of str", "datetime", "void", "object number", "object none", "0d object list", "invalid S", "invalid bytes", "invalid np.bytes_", "invalid object"]


def other(kind, n):
    return {"int": lambda: n, "float": lambda: n / 3, "none": lambda: None, "list": lambda: [n], "dict": lambda: {"a": n}, "tuple": lambda: ("a",) * (n % 3),
            "bool": lambda: n % 2 == 0, "np.int": lambda: np.int32(n), "np.float": lambda: np.float64(n), "arr float": lambda: np.array([float(n)]),
            "arr int": lambda: np.array([[n]]), "arr bool": lambda: np.array([True]), "0d float": lambda: np.array(float(n)),
            "two U": lambda: np.array(["a", "b" * (1 + n % 3)]), "two S": lambda: np.array([b"a", b"b"] * (1 + n % 3)),
            "two object": lambda: np.array(["a", "b"], dtype=object), "2x2 S": lambda: np.array([[b"a", b"b"], [b"c", b"d"]]),
            "empty U": lambda: np.array([], dtype="U3"), "empty object": lambda: np.empty((0, 2), dtype=object), "empty S": lambda: np.array([], dtype="S3"),
            "complex": lambda: np.array([1j]), "list of str": lambda: ["a"], "datetime": lambda: np.array(["2020-01-01"], dtype="M8[D]"),
            "object number": lambda: np.array([n], dtype=object), "object none": lambda: np.array([[None]], dtype=object),
            "0d object list": lambda: np.array({"a": n}, dtype=object), "invalid S": lambda: np.array([b"\xff\xfe"]),
            "invalid bytes": lambda: b"a\xff" * (1 + n % 3), "invalid np.bytes_": lambda: np.bytes_(b"\xe6\x97" * (1 + n % 3)),
            "invalid object": lambda: np.array([b"\xc3"], dtype=object),
            "void": lambda: np.zeros(1, dtype=[("a", "f8")])}[kind]()


@prop(lambda: st.fixed_dictionaries({"kind": st.sampled_from(OTHER), "n": st.integers(-5, 1000)}), quick=300, rule="everything else is rejected",
      examples=lambda tier: [{"kind": k, "n": 1} for k in OTHER])
def rejected(case, ctx):
    from pyspectral.utils import bytes2string, convert2str, np2str
    value = other(case["kind"], case["n"])
    funcs = [("np2str", np2str), ("convert2str", convert2str)]
    if isinstance(value, bytes):
        # bytes which are no UTF-8: no text is made up
        funcs = [("bytes2string", bytes2string), ("convert2str", convert2str)]
    else:
        require(bytes2string(value) is value, "bytes2string changed a value which is not bytes", kind=case["kind"])
    for name, func in funcs:
        try:
            got = func(value)
        except ValueError:
            continue
        require(False, f"{name} accepted what is no text", kind=case["kind"], got=got)
    ctx.event(case["kind"])


@prop(lambda: st.fixed_dictionaries({"text": TEXTS, "as": st.sampled_from(["str", "bytes", "fixed", "array", "2"])}), quick=150,
      rule="texts stored as HDF5 attributes come back")
def attributes(case, ctx):
    import h5py

    from pyspectral.utils import convert2str
    raw = case["text"].encode("utf-8")
    path = ctx.dir() + "/x.h5"
    with h5py.File(path, "w") as h5f:
        if case["as"] == "str":
            h5f.attrs["a"] = case["text"]
        elif case["as"] == "bytes":
            h5f.attrs["a"] = raw
        elif case["as"] == "fixed":
            h5f.attrs["a"] = np.array(raw, dtype=f"S{len(raw) + 1}")
        elif case["as"] == "array":
            h5f.attrs["a"] = np.array([raw], dtype=f"S{len(raw) + 1}")
        else:
            h5f.attrs.create("a", [case["text"]], dtype=h5py.string_dtype())
    with h5py.File(path, "r") as h5f:
        value = h5f.attrs["a"]
        got = convert2str(value)
    require(isinstance(got, str) and got == case["text"], "attribute", how=case["as"], got=got, expected=case["text"])
    if case["text"].isascii():
        ctx.trivial("plain text")
