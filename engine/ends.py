"""P27: every call ends. A path that uses many times the instructions it needs goes round a loop without progress: the paths of texts, of whole lives of a document
(with files that end early, full devices and files and devices that move a few bytes at a time) and of container operations."""
import os
from common import *
import text, own, boxes


def box_endings(thorough):
    """operations on containers in which nothing fails, fewer of them than P21 to P23 judge"""
    out = []
    for pid in ('P21', 'P22', 'P23'):
        js = [(e, ps, src, 0, jd, w) for e, ps, src, f, jd, w in boxes.JOBS[pid](False)]
        step = 1 if thorough else {'P21': 4, 'P22': 3, 'P23': 7}[pid]
        out += js[::step]
    return out


def check():
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    c = Check('P27')
    c.t0 = text.T0
    ts = text.gather(thorough)
    ls = own.gather(False, own.endings if not thorough else (lambda _: own.endings(True)))
    boxes.JOBS['P27'] = box_endings
    bs = boxes.gather('P27', thorough)
    for r in ts:
        for p, k, t in r['viol']:
            if p == 'P27':
                c.violation('P27:%s:%s' % (k, r['name']), t)
        c.undecided += r['undec'][:3]
    for r in ls + bs:
        for v in r['viol']:
            if v[0] == 'loop':
                c.violation('P27:loop:' + r['name'], v[-1])
        c.undecided += r['undec'][:1]
    c.violations = sorted(c.violations, key=lambda v: len(v[1]))[:10]
    rs = ts + ls + bs
    if not sum(r['paths'] for r in rs):
        raise AnalysisBroken('no path was judged: ' + '; '.join(c.undecided[:2]))
    c.coverage.update(templates=len(ts), lives=len(ls), container_operations=len(bs), paths=sum(r['paths'] for r in rs), byte_class_products=sum(r['classes'] for r in ts), instructions=sum(r['steps'] for r in rs),
                      functions_followed=len({f for r in rs for f in r['functions']}), undecided_paths=sum(len(r['undec']) for r in rs), rule=text.RULES['P27'])
    c.assumptions += text.ASSUME + ['Files and devices: lives of a document whose file ends after 0, 1, half or all but one byte, whose device takes 0, 1, 3 or 7 bytes, and that move 1 to 5 bytes at a time.',
                                    'Container operations: a selection of the states and operations of P21 to P23.']
    c.finish(EXPL)


EXPL = ('Abstract interpretation of parsing, reading and writing over texts of byte classes, of lives of documents whose files end early, whose devices are full or that move little at a time, and of container operations; a path '
        'on which many times the needed instructions are used is reported with the place where it goes round.')
