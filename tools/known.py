#!/usr/bin/env python3
"""writes known-findings.txt: the defects found and repaired, by commit of /repo"""
import subprocess
MAP = """
46e7a47 C01
e4a44ba C07
6547d33 C06
326a8da C11
8447859 C03
b531dfd C03
c4320a0 C11
53c0b0b C08
7e04553 C04
2f3f0ab C12
2c8a6f8 C09
4b4d034 C10
b256802 C10
234e02d C10
2efcf8e C09
7e41732 C09
20a3f5c C11
8406867 C15
bf84b24 C16
075c5d4 C14
020980d C17
dd35ccc C17
165ad62 C17
55304c6 C17
82f96b4 C17
2be6c67 C18
1b8d1fb C18
f27a4c3 C20
22f74ed C20
6294fd8 C20
d70d542 C20
3bcb70e C21
8f9f327 C21
46831a6 C21
d0a84f2 C24
0cd5b7f C24
5aacaa0 C22
7bd987a C25
7273fa8 C25
0d98e6f C25
b6db383 C25
24e1c04 C25
b7c3333 C23
37a9bee C22
81e412c C22
63bbf7b C22
fae07a0 C21
96fbf4d C24
11850d2 C24
b55fd1a C26
e8c2fc0 C26
b069186 C26
a784315 C26
7eea38d C26
8dfae7d C27
240368b C27
1a02316 C29
0e64216 C27
e637eab C31
8fbac8c C30
b14b199 C28
7ccb642 C28
a9dd3eb C29
b3265ab C06
a56fb43 C20
e5d640e C20
20ca1f1 C24
69332d3 C24
f7f8bb9 C26
e522128 C26
"""
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout
prop = dict(l.split() for l in MAP.split("\n") if l)
out = ["# fixed: the defect was repaired in /repo; suppresses nothing.",
       "# known: property=<id> key=<what fails> would be a finding left in the code; there is none."]
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s" % (prop[h], h, s[5:]))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
