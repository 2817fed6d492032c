"""Write DESIGN.md from its text and the metas of the planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(HERE, "tools", "design.md")) as fin:
        text = fin.read()
    rows = ["## Planted bugs", "", "Each is caught by the check of its own "
            "property (`tools/plant.py` runs demo, tests and check on a copy); "
            "others that see it too are not listed.", "",
            "| bug | breaks | needs |", "|---|---|---|"]
    for path in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        with open(path) as fin:
            meta = json.load(fin)
        rows.append("| {:s} | {:s} | {:s} |".format(
            os.path.basename(os.path.dirname(path)), meta["what_it_breaks"],
            meta["needs"]))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fout:
        fout.write(text + "\n" + "\n".join(rows) + "\n")


main()
