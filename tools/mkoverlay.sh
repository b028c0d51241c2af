#!/bin/bash
# writes overlay json for sim/*.go to $1
python3 - "$1" <<'P'
import json,sys,glob,os
json.dump({"Replace":{"/repo/verifsim/"+os.path.basename(f):f for f in glob.glob('/verif/sim/*.go')}},open(sys.argv[1],'w'))
P
