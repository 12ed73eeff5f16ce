#!/usr/bin/env python3
"""Writes harness/props/locales.go: the list of all shipped humanize locales."""
import glob, os
dirs = sorted(os.path.dirname(f) for f in glob.glob('/repo/humanize/locale/*/*.go') if not f.endswith('_test.go'))
names = [(os.path.basename(d), os.path.basename(d)) for d in dirs]
with open('/verif/harness/props/locales.go', 'w') as o:
    o.write('// Code generated by tools/mklocales.py; DO NOT EDIT.\n\npackage props\n\nimport (\n\t"github.com/vorlif/spreak/humanize"\n')
    for d, p in names:
        o.write('\t%s"github.com/vorlif/spreak/humanize/locale/%s"\n' % (p + " ", d))
    o.write(')\n\n// shipped are the locales of the humanize package.\nfunc shipped() []*humanize.LocaleData {\n\treturn []*humanize.LocaleData{\n')
    for d, p in names:
        o.write('\t\t%s.New(),\n' % p)
    o.write('\t}\n}\n')
