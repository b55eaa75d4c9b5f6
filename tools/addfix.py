#!/usr/bin/env python3
# addfix.py property commit what: records a repaired defect
import json,sys,subprocess
p='/verif/tools/fixed_extra.json'
d=json.load(open(p))
d.append(sys.argv[1:4])
open(p,'w').write("["+",\n".join(json.dumps(x) for x in d)+"]\n")
subprocess.run([sys.executable,'/verif/tools/mkfindings.py'],check=True)
