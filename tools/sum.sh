#!/bin/bash
python3 -c "
import json
for s in json.load(open('/verif/evidence/$1.json'))['coverage']['scenarios']: print('  ',s['name'],s['executions'],'bound',s['deviation_bound'],s['exhausted_within_bound'],round(s['worker_seconds'],1))"
