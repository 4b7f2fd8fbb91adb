"""writes names.json: the names of the tree the rules were written for (run by hand, never by a check)"""
import json, os, facts, names
f, i = facts.extract(raw=True)
with open(os.path.join(names.HERE, 'names.json'), 'w') as o:
    json.dump(names.summary(f), o, indent=0, sort_keys=True)
