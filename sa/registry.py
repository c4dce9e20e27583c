"""Property id -> rule; evidence and verdict output."""
import json
import os
import time

import core
from core import Check, World, HERE
import facts

EVID = os.environ.get('STEIT_SA_EVIDENCE', HERE + '/evidence')


def rules():
    import r_ser
    import r_cache
    import r_de
    import r_num
    import r_rt
    import r_log
    import r_ops
    import r_place
    import r_replay
    import r_logger
    import r_eq
    import r_meta
    import r_gen
    import r_text
    import r_client
    import r_schema
    import r_cs
    import r_cslog, r_csgen
    return {
        'C01': r_ser.c01,
        'C02': r_num.c02,
        'C03': r_num.c03,
        'C04': r_rt.c04,
        'C05': r_de.c05,
        'C06': r_de.c06,
        'C07': r_de.c07,
        'C08': r_de.c08,
        'C09': r_cache.c09,
        'C10': r_eq.c10,
        'L01': r_log.l01,
        'L02': r_log.l02,
        'L03': r_place.l03,
        'L04': r_log.l04,
        'L05': r_replay.l05,
        'L06': r_log.l06,
        'L07': r_replay.l07,
        'L08': r_replay.l08,
        'L09': r_log.l09,
        'L10': r_logger.l10,
        'L11': r_logger.l11,
        'L12': r_log.l12,
        'L13': r_logger.l13,
        'L14': r_ops.l14,
        'D01': r_schema.d01,
        'D02': r_meta.d02,
        'D03': r_gen.d03,
        'D04': r_text.d04,
        'D05': r_client.d05,
        'D06': r_cs.d06,
        'D07': r_cslog.d07,
        'D08': r_cslog.d08,
        'D09': r_csgen.d09,
    }


TECH = {
    '*': 'abstract interpretation of the compiler\'s MIR, path-sensitive over symbolic terms',
    'D01': 'compile-fail witnesses with compiling twins, type-checked against the derive of the current tree',
    'D06': 'abstract interpretation of the parsed C# sources, path-sensitive over symbolic bits',
    'D07': 'abstract interpretation of the parsed C# sources, against metadata read from the compiler\'s MIR',
    'D08': 'abstract interpretation of the parsed C# sources, path-sensitive over symbolic terms',
    'D09': 'name resolution and type checking of the symbolic text that abstract interpretation of the MIR finds generators to write',
}
NOTE = {
    '*': 'Decided on every path of the MIR of the analysed functions, for all inputs, with loops summarised by one '
         'generic iteration. Trusts rustc\'s MIR construction, the models of the standard library and of '
         'iowrap/indexmap calls in sa/models.py, and, for derived code, that the corpus of schemas is representative '
         'of what steit_derive emits. An obligation the analysis cannot decide is reported in the evidence as '
         'undecided and raises no alarm.',
    'D01': 'Decided on an enumerated family of schemas (every rule, every kind of container, every position in short field and '
           'variant lists, boundary and far values, every attribute), each compiled against the current derive; schemas outside '
           'the family are not covered. Trusts rustc.',
    'D06': 'Decided on every path of the C# source as parsed by sa/cs.py (the subset of C# the client is written in), for all values; '
           'encodings of every length are enumerated with unknown payload bits. Trusts that parser and the models of the .NET '
           'calls the client makes (List, Array, Encoding).',
    'D09': 'Decided on the text the generator is found to write, with one element of every kind in every repetition; schema names '
           'are taken to differ from the names used by the generated classes themselves. Trusts sa/cs.py and the list of '
           'framework types in sa/r_csgen.py; types that cannot be inferred are not checked.',
}
NOTE['D07'] = NOTE['D08'] = NOTE['D06']


def known():
    p = HERE + '/known-findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def run(pid, thorough=False, verbose=False):
    t0 = time.time()
    chk = Check(pid)
    chk.thorough = thorough
    try:
        World.get()
    except facts.FactsError as e:
        chk.bad('build', 'the tree under analysis does not compile: %s' % str(e)[-1500:])
    else:
        w = World.get()
        if w.corpus is None:
            chk.bad('corpus', 'the expansion of steit_derive on the corpus no longer compiles: ' + w.corpus_err[-1500:])
        try:
            rules()[pid](chk)
        except Exception as e:  # a crash of the analysis is not a verdict about the code
            import traceback
            chk.unknown('whole rule', 'analysis error: %s' % traceback.format_exc()[-600:])
            if verbose:
                traceback.print_exc()
    kf = [k for k in known().get('findings', []) if k['property'] == pid]
    new = []
    for v in chk.viol:
        hit = [k for k in kf if k['key'] == v['key']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    rp = EVID + '/%s.violation.json' % pid
    if new:
        json.dump(new, open(rp, 'w'), indent=1)
    elif os.path.exists(rp):
        os.remove(rp)
    write_evidence(chk, pid, new, thorough, time.time() - t0)
    if verbose:
        for u in chk.unk:
            print('undecided:', u['obligation'], '--', u['reason'][:300])
    print('%s: %d obligations, %d hold, %d undecided, %d functions, %d paths' % (
        pid, chk.oblig, chk.held, len(chk.unk), len(chk.functions), chk.paths))
    for v in new:
        print('  %s%s' % (v['message'][:600], ' at ' + v['where'] if v.get('where') else ''))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def write_evidence(chk, pid, new, thorough, dt):
    n_viol = len(chk.viol)
    ev = {
        'property': pid,
        'tier': 'thorough' if thorough else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'wall_s': round(dt, 2),
        'coverage': {
            'explanation': 'Abstract interpretation of the compiler\'s MIR of /repo/steit and of steit_derive\'s '
                           'expansion on the corpus; nothing is executed. Rule: ' + ' | '.join(chk.rules),
            'obligations': chk.oblig,
            'discharged': chk.held,
            'violated': n_viol,
            'undecided': len(chk.unk),
            'undecided_obligations': chk.unk[:60],
            'functions_analysed': len(chk.functions),
            'paths_analysed': chk.paths,
            'call_sites_interpreted': chk.calls,
            'sites': chk.sites,
            'samples': sorted(chk.functions)[:40] or chk.samples[:40],
            'notes': chk.notes,
            'violations': new,
        },
    }
    json.dump(ev, open(EVID + '/%s.json' % pid, 'w'), indent=1)
