"""DESIGN.md = tools/design_head.md + the table of planted bugs (seeded/*/meta.json, tools/caught.json) + design_tail.md"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    t = os.path.join(ROOT, "tools")
    caught = json.load(open(os.path.join(t, "caught.json")))
    out = [open(os.path.join(t, "design_head.md")).read(), "\n## 4. Planted bugs\n\n",
           "| planted bug | what it breaks | needs | caught by (run) |\n|---|---|---|---|\n"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        out.append("| `%s` | %s | %s | %s |\n" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                                  caught.get(d, "?")))
    out.append(open(os.path.join(t, "design_tail.md")).read())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("".join(out))


main()
