#!/usr/bin/env python3
# fixed.py PROPERTY HASH WHAT: adds a fixed entry
import json,sys
f=json.load(open('/verif/known_findings.json')); f['findings'].append({"property":sys.argv[1],"status":"fixed","what":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])}); json.dump(f,open('/verif/known_findings.json','w'),indent=1)
