"""python3-vt vt/run.py PROPERTY [quick|thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

WHERE = {}
for mod, ids in {'words': 'S01 S02 S03 S04', 'data': 'S05 S06 S07 S08', 'effects': 'S09 S10 S11 S12 S13', 'front': 'F01 F02 F03', 'syntax': 'F04 F05', 'tree': 'F06', 'trans': 'T01 T02 T03 T04 T05 T06 T07 T08'}.items():
    for i in ids.split():
        WHERE[i] = mod


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    m = __import__('props.' + WHERE[pid], fromlist=[pid])
    ck = check.Check(pid, tier)
    r = getattr(m, pid)(ck) or {}
    sys.stdout.flush()
    return ck.finish(r.get('level', 'translation_validation' if False else 'other'), explanation=r.get('explanation', m.__doc__))


sys.exit(main())
