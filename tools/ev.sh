#!/bin/bash
python3 -c "
import json,sys;e=json.load(open('/verif/evidence/$1.json'))['coverage'];print({k:float('%.3g'%v) for k,v in e['worst_error_over_tolerance'].items()});print(e['monitor_events'],e['skipped'],[(s['shard'],s['wall_s']) for s in e['shards']])"
