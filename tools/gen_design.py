#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from the harness comments and the last results."""
import re, json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
ORACLE = {
 "C01": "bit i of the data as defined by (byte i/8 >> (7-i%8)) & 1, in the harness; untouched bits compared with a copy.",
 "C02": "a model cursor (slice, position) with big-endian values built byte by byte.",
 "C03": "code words constructed from leading zeros and info bits; values and consumed bits known by construction; streams against a bit-level decoder.",
 "C04": "naive search for the first 00 00 01 followed by a byte.",
 "C05": "concatenation, and the cut positions given by the naive search; for built streams the units themselves.",
 "C06": "the units the stream was built from; for arbitrary bytes a parser of the length-prefixed form.",
 "C07": "the units the packet was built from with expected start codes and the insertion rule; output size and untouched rest of the buffer.",
 "C08": "as C07 for H.265 with length fields of 1 to 4 bytes.",
 "C09": "an independent encoder and field reader of the record, from ISO/IEC 14496-15.",
 "C10": "an independent encoder and field reader of the record, from ISO/IEC 14496-15.",
 "C11": "an encoder that writes an SPS element by element (values known), and a second reading of the syntax for arbitrary bytes.",
 "C12": "an encoder that writes an SPS element by element (values known), and a second reading of the syntax for arbitrary bytes.",
 "C13": "a scan of the unit types the stream was built from, or of the naive search's units.",
 "C14": "the last unit of each kind among those the stream was built from.",
 "C15": "bit positions of ISO/IEC 13818-7 and 14496-3, tables of the standard.",
 "C16": "no panic, no exhausted step budget, input equal to its copy, allocations bounded.",
 "C17": "a Go slice as the model of the sequence.",
 "C18": "a Go slice as the model of the sequence.",
 "C19": "a list of blocks with copies of their bytes; every outstanding block is compared after every operation.",
 "C20": "a list of blocks with copies of their bytes; every outstanding block is compared after every operation.",
 "C21": "the number of releases reported and the final count, over every interleaving.",
 "C22": "a model of arrival order, durations, probe time and callbacks.",
 "C23": "a recording data pipeline (or the real ones) and the list of blocks handed over.",
 "C24": "units of the packet before and after, and the rule for parameter sets.",
 "C25": "field values given at creation; neutral values otherwise.",
 "C26": "exact integer quotient: |ts|*dst = q*src + r with 0 <= r < src.",
 "C27": "the parameter sets the codec data was built from, and dimensions from the SPS encoder of C11/C12.",
 "C28": "a list of tracks; estimation brackets computed from size and duration.",
 "C29": "an arbitrary random source; range, reachability of every value, alphabet.",
 "C30": "a list of pending bytes.",
 "C32": "per stream, a list of blocks with copies of their bytes.",
 "C31": "per track, the expected bytes and file name; file contents read back.",
}
docs = {}
for f in sorted((root / "harness/props").glob("*.go")):
    t = f.read_text()
    for m in re.finditer(r"((?:^//.*\n)+)^func (C\d\d)_(\w+)\(\) \{", t, re.M):
        text = " ".join(l.lstrip("/").strip() for l in m.group(1).splitlines())
        docs.setdefault(m.group(2), []).append((m.group(3), text))
props = [json.loads(l) for l in open(root / "properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Oracle: {ORACLE[i]}\n")
    for name, text in docs.get(i, []):
        out.append("- " + (text if text.startswith(i) else f"{i}_{name}: {text}"))
    out.append("")
def put(doc, tag, text):
    return re.sub(rf"(?s)<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{text}\n<!-- /{tag} -->", doc)
d = (root / "DESIGN.md").read_text()
d = put(d, "properties", "\n".join(out))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
rf = root / "tools/seeds/results.json"
if rf.exists():
    res = json.load(open(rf))
for s in sorted((root / "seeded").iterdir()):
    m = json.load(open(s / "meta.json"))
    rows.append(f"| {s.name} | {m['property']} | {m['needs'].replace('|','/')} | {res.get(s.name, '')} |")
d = put(d, "seeds", "\n".join(rows))
(root / "DESIGN.md").write_text(d)
