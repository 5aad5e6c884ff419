#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(20000)
import common

DISPATCH = {
    **{p: (lambda p=p: __import__('text').check(p)) for p in ('P01', 'P02', 'P03', 'P04', 'P10', 'P18')},
    'P27': lambda: __import__('ends').check(),
    'P05': lambda: __import__('held').check05(),
    'P07': lambda: __import__('held').check07(),
    'P06': lambda: __import__('p06').check(),
    'P08': lambda: __import__('p08').check(),
    'P20': lambda: __import__('p20').check(),
    'P25': lambda: __import__('p25').check(),
    'P11': lambda: __import__('files').check11(),
    'P12': lambda: __import__('files').check12(),
    'P13': lambda: __import__('files').check13(),
    'P19': lambda: __import__('p19').check19(),
    'P09': lambda: __import__('own').check(),
    **{p: (lambda p=p: __import__('boxes').check(p)) for p in ('P21', 'P22', 'P23')},
    'P24': lambda: __import__('p24').check(),
    'P14': lambda: __import__('docs').check14(),
    'P15': lambda: __import__('docs').check15(),
    'P16': lambda: __import__('docs').check16(),
    'P17': lambda: __import__('docs').check17(),
    'P26': lambda: __import__('p19').check26(),
}


def main():
    if sys.argv[1:] == ['--setup']:
        common.irdump_tool()
        print('built')
        return 0
    pid = sys.argv[1]
    try:
        DISPATCH[pid]()
    except SystemExit:
        raise
    except common.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 4


sys.exit(main())
