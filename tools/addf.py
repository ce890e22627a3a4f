#!/usr/bin/env python3
"""addf.py ID PROP COMMIT TEXT: records a repaired defect in known_findings.jsonl"""
import json, sys
i, p, c, t = sys.argv[1:5]
open('/verif/known_findings.jsonl', 'a').write(json.dumps(dict(id=i, status="fixed", property=p, commit=c, what="fixed: property=%s %s %s" % (p, c, t))) + "\n")
