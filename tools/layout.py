#!/usr/bin/env python3
"""writes vcg/layout.json: the member names the contracts and harnesses use"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vcg import astload
astload.LAYOUT = '/nonexistent'
prog = astload.load(astload.all_sources())
json.dump(astload.layout(prog), open(os.path.join(os.path.dirname(astload.__file__), 'layout.json'), 'w'), indent=0, sort_keys=True)
