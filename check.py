"""python check.py PROPERTY [--tier quick|thorough]: decide one property."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
sys.dont_write_bytecode = True
import core

DRIVERS = {
    'H01': 'handler', 'H02': 'handler', 'H03': 'handler', 'H04': 'handler', 'S01': 'simhandler',
    'D03': 'catalog', 'D05': 'bins',
    'D01': 'paths', 'D02': 'datadir', 'D04': 'datadir', 'D06': 'datadir',
    'L01': 'lightcone', 'L02': 'lightcone', 'L03': 'lightcone', 'L04': 'lightcone', 'L05': 'lightcone', 'L06': 'lcview',
    'G01': 'grid', 'G02': 'grid', 'G03': 'grid', 'G04': 'grid', 'G05': 'grid', 'G06': 'grid', 'G07': 'handgrid', 'G08': 'grid', 'I01': 'instrument', 'I02': 'instrument', 'I03': 'instrument', 'I04': 'instrument',
    'P01': 'galprop', 'P02': 'galprop', 'P03': 'abund', 'P04': 'distrib', 'P05': 'abmodel',
    'S02': 'simlookup', 'S03': 'simlookup',
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ck = core.Check(prop, tier, seed)
    try:
        mod = __import__(DRIVERS[prop])
        try:
            mod.run(ck, prop)
        except core.MachineryError:
            raise
        except Exception as ex:
            if isinstance(ex, MemoryError) or getattr(ex, 'errno', None) in (28, 12, 24):
                raise
            ck.violation({'spec': 'driver', 'what': 'the code raised an error where the specification has none',
                          'clauses': ['unexpected error'], 'step': None, 'event': None,
                          'error': traceback.format_exc()})
        rc = ck.finish()
    except Exception:
        traceback.print_exc()
        if ck.violations:
            # what was found before the machinery failed still counts
            rc = ck.finish()
        else:
            rc = 2
    finally:
        ck.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
