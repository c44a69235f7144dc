#!/usr/bin/env python3
"""tech.py ID "technique" "note": set the entry of a property in technique.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'technique.json')
t = json.load(open(p)); t[sys.argv[1]] = sys.argv[2:]; json.dump(t, open(p, 'w'), indent=1)
