"""property id -> specification"""
import importlib
import os
import traceback
import program
from framework import Missing

TRUST = ['syn 2.0 parser (tools/astdump)', 'the abstract interpreter and its library models (analyzer/*.py)',
         'documented semantics of std, byteorder, blake2s_simd and arkworks as modelled in stdlib.py / arklib.py']

SPECS = {}


def spec(pid, floor, rule, assumptions=()):
    def deco(f):
        SPECS[pid] = dict(f=f, floor=floor, rule=rule, assumptions=list(assumptions))
        return f
    return deco


def run(c, s):
    try:
        s['f'](c)
    except program.LoadError as e:
        c.results.append(('load', 'violated', 'the source tree could not be loaded: %s' % e))
    except Missing as e:
        c.results.append(('anchor', 'violated', 'missing: %s' % e))
    except Exception as e:     # the analyser could not set the obligations up: no verdict, said so
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        c.results.append(('setup', 'undecided', '%s: %s' % (type(e).__name__, e)))
        return c.finish('other', s['rule'], 0, TRUST, s['assumptions'])
    return c.finish('other', s['rule'], s['floor'], TRUST, s['assumptions'])


import specs.hashers, specs.convert, specs.bls, specs.cache, specs.h2c, specs.epoch, specs.ffi, specs.ysign, specs.circuit, specs.epochcircuit, specs.prover, specs.domains  # noqa
