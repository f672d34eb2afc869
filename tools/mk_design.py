"""dev tool: rewrites the table of seeded changes at the end of DESIGN.md.  Never used by a registered check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "c03-keep-ties": "missed at first: face sets with a common textual prefix added",
    "c10-distribution-memo": "missed at first: the same question around reassignments to similar laws added",
    "c11-token-cache": "missed at first: more spellings of the same assignment added",
    "c15-null": "missed at first: larger sets and operands re-read after every merge",
    "c19-eq-bool": "missed at first: values beyond machine words added",
    "c04-memo": "missed at first: slices of draw trees too large to exhaust added",
    "c06-wrap": "missed at first: up to 300 reassignments added",
    "c16-buffer": "missed at first: images are looked at after later charts",
    "c18-contained": "missed at first: parts of larger expressions are queried too",
    "c12-average-float": "missed at first: totals beyond what a float holds added",
    "c01-rescale": "missed at first: 300 and more dice added",
    "c10-limit": "missed at first: sessions with up to 260 variables, lines and calls added",
    "c04-reseed": "missed at first: seeded generators are modelled as fixed streams; slices roll twice",
    "c19-const-sum": "missed at first: constants among the operands",
    "c14-dup-lines": "missed at first: programs of up to 500 lines added",
    "c16-chart-pop": "missed at first: every query on wide, skewed and gapped distributions added",
    "c03-drop-all-but": "missed at first: faces up to 10^40 times as likely as others added",
    "c04-fast": "missed at first: keep/drop dice with up to 57 faces added",
}
try:
    NOTES.update(json.load(open(os.path.join(V, "tools", "seeded_notes.json"))))
except FileNotFoundError:
    pass
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], NOTES.get(i, "caught")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[: s.index("## Seeded changes")]
s += "## Seeded changes\n\n%d changes, each in `seeded/<id>/`; each is caught by the check of its property (quick tier).\n\n| change | caught by | needs | remark |\n|---|---|---|---|\n" % len(rows)
open(p, "w").write(s + "\n".join(rows) + "\n")
