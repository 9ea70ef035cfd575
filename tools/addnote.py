#!/usr/bin/env python3
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'notes.json')
n=json.load(open(p)); n[sys.argv[1]]=sys.argv[2]; json.dump(n,open(p,'w'),indent=0,sort_keys=True)
