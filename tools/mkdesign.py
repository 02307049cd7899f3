"""fill the generated lists of DESIGN.md (fixes, planted bugs) between their headings"""
import glob, json, os, re
fx = []
for l in open('/verif/known_findings.jsonl'):
    d = json.loads(l)
    if d['status'] == 'fixed':
        fx.append("* " + re.sub(r'^fixed: property=(P\d+) *([0-9a-f]{7})? *', lambda m: "**%s** %s " % (m.group(1), ("(`%s`)" % m.group(2)) if m.group(2) else ""), d['what']))
sd = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
extra = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    sd.append("| %s | %s | %s | %s |" % (i, d['property'], str(d['needs']).replace("\n", " ").replace("|", "/"), extra.get(i, d['property'])))
s = open('/verif/DESIGN.md').read()
def put(s, mark, body):
    b, e = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    new = b + "\n" + body + "\n" + e
    if b in s:
        return s[:s.index(b)] + new + s[s.index(e) + len(e):]
    return s.replace("@@%s@@" % mark.upper(), new)
s = put(s, "fixes", "\n".join(sorted(fx)))
s = put(s, "seeds", "\n".join(sd))
open('/verif/DESIGN.md', 'w').write(s)
