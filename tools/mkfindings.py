"""Writes known_findings.json: the findings that stand, and the fix commits in /repo."""
import json, subprocess
FINDINGS = json.load(open('/verif/tools/findings.json'))
# fix commit -> property it broke
P = dict(l.split() for l in """
7ec8315 C02
ca3cb75 C23
9d76a99 C02
bddda14 C02
3687b1e C14
28b1458 C14
892175f C14
51427e8 C14
820bf32 C14
fffd9f3 C14
85f34ef C02
145d58f C21
bfd2444 C18
038ddc1 C18
ebeab9a C21
923730c C03
2b3d16b C05
7632721 C06
506e397 C06
fe13e97 C06
e336263 C06
ea851eb C06
cd0551d C06
b7d8429 C06
21ad348 C04
4e6ecf0 C05
dcbe252 C06
f84aaf1 C08
9de625c C09
250f695 C08
4c098a5 C17
12b4056 C17
1d553a6 C09
fc6e001 C12
639613b C10
ef8e7a4 C19
ba3bf0c C19
c0013b0 C13
220fe63 C13
66d431c C16
0adafea C16
2b82890 C16
eec37f9 C16
86d9eb0 C16
302f53f C16
7c5a787 C16
b5eb072 C16
89c27d8 C16
6ef5d28 C16
cfd739d C06
cac4fe7 C03
9dec5fe C14
728d7b0 C14
bb122e6 C09
7a5739a C17
b1fb00b C10
4a83b01 C24
014ac21 C24
920fe70 C14
e31cde8 C06
46c4fcf C21
""".strip().split("\n"))
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','6d611ae..HEAD'],capture_output=True,text=True).stdout
fixed=[]
for l in log.strip().split("\n"):
    h, m = l.split(' ',1)
    if not m.startswith('fix:'): continue
    p = P.get(h) or ('C16' if 'clone' in m else None)
    if not p: raise SystemExit(f'no property for {l}')
    fixed.append(f"fixed: property={p} {h} {m[5:]}")
json.dump({"findings":FINDINGS,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
