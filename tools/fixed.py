import subprocess,json,re,sys
M='''6bf1a8a C02
ddf8c06 C02
7cacb45 C01
fcc5b0c C01
2159907 C01
4d12923 C01
02d86cb C01
32f6671 C02
cf25e0d C03
0b6b963 C03
607b7c2 C03
15f5b22 C04
c784e97 C04
c6c2c15 C05
16fc99d C06
ea090b3 C07
20339b2 C07
65b61cb C07
97f84a5 C07
16cb431 C07
a8acfe3 C07
4b57dba C15
15ddf86 C15
b3d8207 C16
f49168a C16
a45ac69 C11
3f07966 C08
cdd3d58 C09
99c2fc1 C10
d2e23b2 C09
4593079 C22
09b1a46 C22
b7510cf C22
1255095 C09
2ac88fe C17
23fb693 C17
97f89b5 C18
6330930 C17
836390c C18
9990dfa C08
93b4bc4 C19
70986b5 C19
17748d3 C20
9ce42db C03
b95a170 C03
56756bb C07
69c1758 C07
ca4d24f C07
3cea227 C12
e63c390 C12
58e9c0c C12
579a1d8 C21
d77dcaa C10
464c3fe C10
ad71354 C10
2f5e4d6 C08
5d4b4f9 C08
7b9b0df C08
ef4c656 C09
fa2d906 C09
44e0c46 C15
d12592b C16'''
for x in sys.argv[1:]: M+='\n'+x.replace(':',' ')
M=dict(l.split() for l in M.splitlines())
p='/verif/known_findings.json'
try: K=json.load(open(p))
except OSError: K=dict(findings=[],fixed=[])
done={f.split()[2] for f in K['fixed']}
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','d9c91fa..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    if h in done: continue
    if h not in M: print('unmapped',l); continue
    K['fixed'].append(f"fixed: property={M[h]} {h} {s[5:]}")
json.dump(K,open(p,'w'),indent=1); open(p,'a').write('\n')
