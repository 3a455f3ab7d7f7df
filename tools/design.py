"""Put together DESIGN.md: tools/design_head.md with the seeds and the properties."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(R + "/tools/design_head.md").read()
rows = ["| change | check | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/")))
props = open(R + "/tools/design_props.md").read()
open(R + "/DESIGN.md", "w").write(head.replace("@SEEDS@", "\n".join(rows)).replace("@PROPS@", props.strip()))
