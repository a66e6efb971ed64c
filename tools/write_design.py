"""Put DESIGN.md together: design/body.md, the repaired defects, design/notes.md, the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(*parts):
    with open(os.path.join(HERE, *parts)) as fd:
        return fd.read().rstrip("\n") + "\n"


def cell(value):
    return " ".join(value.split()).replace("|", "/")


def main():
    out = [text("design", "body.md"), "## 3. Genuine defects found, and repaired in /repo\n",
           "Each is one `fix:` commit; the shrunk case which showed it is in `regressions/` and replayed by every\n"
           "run. None is left open, so no check prints KNOWN-FINDING.\n",
           "| property | commit | what failed |\n|---|---|---|"]
    for line in text("KNOWN_FINDINGS.jsonl").splitlines():
        entry = json.loads(line)
        out[-1] += "\n| %s | %s | %s |" % (entry["property"], entry["commit"][:7], cell(entry["what"]))
    out[-1] += "\n"
    out.append(text("design", "notes.md"))
    out.append("## 6. Planted bugs\n")
    out.append("Every one builds, passes the 146 tests, and is caught by the quick check of its property (seed 1 and\n"
               "others). \"extended\" marks those which the check missed when the bug was written; the check was then\n"
               "strengthened in general terms (not for the one input).\n")
    rows = "| bug | property | what it breaks | needs |\n|---|---|---|---|"
    with open(os.path.join(HERE, "design", "extended.txt")) as fd:
        extended = set(fd.read().split())
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as fd:
            meta = json.load(fd)
        mark = " (extended)" if name in extended else ""
        rows += "\n| %s%s | %s | %s | %s |" % (name, mark, meta["property"], cell(meta["what_it_breaks"]),
                                              cell(meta["needs"]))
    out.append(rows + "\n")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fd:
        fd.write("\n".join(out))


if __name__ == "__main__":
    main()
