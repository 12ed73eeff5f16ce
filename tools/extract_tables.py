"""One-time extraction of the published rule tables (kept as frozen data in
harness/ref/data): CLDR rule texts per language and gettext formulas per
language, taken from the generated sources and tests of the pinned commit."""
import json,re,sys
R='/repo/catalog/'
ev=open(R+'cldrplural/evaluation_gen_test.go').read()
bt=open(R+'cldrplural/builtin_gen_test.go').read()
def funcs(src,pref):
    out={}
    for m in re.finditer(r'^func Test'+pref+r'(\w+)\(t \*testing\.T\) \{\n(.*?)^\}\n',src,re.S|re.M):
        out[m.group(1)]=m.group(2)
    return out
E=funcs(ev,'Evaluate');B=funcs(bt,'Builtin')
assert set(E)==set(B),(set(E)^set(B))
groups=[]
seen=set()
for name in E:
    rules=re.findall(r'ast\.MustParse\("(.*?)"\)\n(.*?)(?=rule = |\Z)',E[name],re.S)
    langs=re.findall(r'"([^"]+)"',re.search(r'range \[\]string\{(.*?)\}',B[name]).group(1))
    blocks=re.findall(r'for _, sample := range \[\]string\{(.*?)\} \{\n.*?assert\.Equal\(t, (\w+),',B[name],re.S)
    samp=[re.search(r'range \[\]string\{(.*?)\} \{',x[1],re.S) for x in rules]
    # group samples: integer and decimal might be in separate loops
    cats=[]
    for s,c in blocks:
        if not cats or cats[-1]!=c: cats.append(c)
    assert len(cats)==len(rules),(name,cats,len(rules))
    for l in langs:
        assert l not in seen; seen.add(l)
    groups.append({'langs':langs,'rules':[{'cat':c.lower(),'rule':r[0]} for c,r in zip(cats,rules)]})
json.dump(groups,open('/verif/harness/ref/data/cldr.json','w'),indent=1,ensure_ascii=False)
print(len(groups),len(seen))
pg=open(R+'poplural/builtin_gen.go').read()
sw=pg[pg.index('func getBuiltInForLanguage'):]
sw=sw[:sw.index('\n}\n')]
l2f={}
for m in re.finditer(r'case (.*?):\n\t\treturn (\w+)\(\)',sw):
    for l in re.findall(r'"([^"]+)"',m.group(1)): l2f[l]=m.group(2)
form={}
for m in re.finditer(r'func (newRule\w+)\(\) \*Rule \{\n(.*?)\n\}\n',pg,re.S):
    c=re.search(r'// (nplurals=.*?;.*?;)\s*\n',m.group(2))
    form[m.group(1)]=c.group(1) if c else None
out={l:form[f] for l,f in l2f.items()}
print(len(out),[l for l in out if not out[l]])
json.dump(dict(sorted(out.items())),open('/verif/harness/ref/data/gettext.json','w'),indent=1)
