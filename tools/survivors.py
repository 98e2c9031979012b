"""Development aid: survivors of a mutation campaign with their source lines."""
import json
import sys
for x in sys.stdin if len(sys.argv) < 2 else open(sys.argv[1]):
    rel, ln, why, res = json.loads(x)
    if 'SURV' in res or 'timeout' in res:
        src = open('/repo/' + rel).read().split('\n')
        print(f'{rel.split("/")[-1]}:{ln} [{why[:80]}]  {src[ln - 1].strip()[:110]} {"" if "SURV" in res else res}')
