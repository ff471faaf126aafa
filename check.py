#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  |  check.py replay FILE"""
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
import family
import props


def main():
    if sys.argv[1] == 'setup':
        run = core.Run('setup', 'quick', 1)
        try:
            core.build(run)
            core.model(run, 'MCLexer')
        finally:
            run.close()
        return 0
    if sys.argv[1] == 'replay':
        v = json.load(open(sys.argv[2], encoding='utf-8'))
        prop, tier, replay = v['property'], 'quick', v
    else:
        prop, tier, replay = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')), None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    run = core.Run(prop, tier, seed)
    try:
        run.rng = random.Random('%s/%d' % (prop, seed))
        run.thorough = tier == 'thorough'
        p = props.PROPS[prop]
        if replay and replay['family'] == 'build':
            props.flavour_build(run, replay['features'])
            return 1 if run.violations else 0
        if replay:
            binary = core.build(run, replay.get('features', ''))
            family.execute(run, binary, [replay['scenario']], 'replay', features=replay.get('features', ''))
            if replay['family'] == 'creg':
                family.schedules(run, binary, [replay['scenario']] * 64, 'replay', 60)
            for x in run.violations:
                print(json.dumps(x, ensure_ascii=False, indent=1))
            return 1 if run.violations else 0
        p.run(run)
        return core.finish(run, 'model_checking', p.assumptions)
    except core.ToolError as e:
        print('check failed: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


sys.exit(main())
