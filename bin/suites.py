"""One function per property: which models are checked, which codecs replay
their transitions, which histories are recorded and validated."""
from vfy import Check, CheckError, Raw

CORE = ['int_ro', 'int_lo', 'int_cl', 'int_op', 'int_dyn', 'dbl_dyn', 'dbl_ro', 'dbl_lo']


EXOTIC = ['uchar_dyn', 'uchar_ro', 'schar_cl', 'short_op', 'uint_lo', 'ull_dyn', 'll_cl', 'flt_dyn', 'str_dyn', 'str_ro', 'rat_dyn', 'date_dyn', 'date_ro', 'ptime_dyn',
          'intg_ro', 'intg_lo', 'intg_cl', 'intg_op', 'intg_dyn', 'dblg_dyn', 'dblg_ro', 'dblg_lo']
# an atom stands for many elements: blocks far apart up to the limits of the type, and grids of distant elements
WIDE = ['wide_ro', 'wide_lo', 'wide_cl', 'wide_op', 'wide_dyn', 'wideg_dyn', 'block_ro', 'block_lo', 'block_cl', 'block_op', 'block_dyn', 'blockg_cl']
GAPS = ['gap_dyn', 'gap_ro', 'gap_lo', 'gapl_dyn', 'gapg_dyn', 'gapu_dyn']
NEED = dict(rat='NEED_RATIONAL', date='NEED_GREG', ptime='NEED_PTIME', ddur='NEED_GREG', tdur='NEED_PTIME')

# the driver built so that a wrong use of the underlying containers or of memory ends it
CK = ' -D_GLIBCXX_DEBUG -fsanitize=address'


def k(c):
    need = NEED.get(c.split('_')[0])
    return 'MAINK=K_' + c + (' -D' + need if need else '')


def set_suite(c, content, n, codecs, styles=('join', 'sep', 'split'), name='sets'):
    for s in styles:
        f = c.emit(name + '_' + s, 'IntervalSets', dict(N=n, Style=s), invariants=['Inv'], workers=3)
        for kd in codecs:
            exe = c.compile('sets.cpp', [k(kd)])
            c.drive('%s/%s/%s' % (name, s, kd), exe, f, ['-mode', s] + (['-content'] if content else []))


def set_histories(c, codecs, events, n=14, hist=60, judged=()):
    """judged: the questions asked in between and judged; without any, the steps are judged"""
    for i, kd in enumerate(codecs):
        exe = c.compile('sethist.cpp', [k(kd)])
        nm = '%s_%d' % (kd, n)
        t = c.record('hist_' + nm, exe, c.seed * 1000 + i, events, ['-mode', str(n), '-only', str(hist)] + (['-content'] if judged else []))
        c.validate('trace_sets_' + nm, 'TraceSets', t, dict(N=n, K=6, Adopt=bool(judged), Judged=Raw('{%s}' % ', '.join('"%s"' % q for q in judged))))


def set_design(c, n):
    c.submit(c.tlc, 'set_history_design', 'SetHistory', dict(N=n, K=2), spec='HSpec', invariants=['TypeOK', 'Meaning'], workers=2)


def accum_suite(c, name, n, kinds, ops, content, sets=(), rows=(), workers=3, opt='-O0', big=False):
    """sections accumulated into containers that already hold something"""
    f = c.emit('accum_' + name, 'Accumulate', dict(N=n, Selected=set(kinds), OpSet=set(ops), Big=big), invariants=['WF'], constraint='InV', workers=workers)
    styles = {x.split('-')[-1] for x in kinds}
    for kd in sets:
        exe = c.compile('accumulate.cpp', [k(kd)], opt=opt)
        for md in ('join', 'sep', 'split', 'element'):
            if md in styles or md == 'element' and 'join' in styles and kd in DISCRETE + ['intg_dyn', 'uchar_ro', 'date_dyn']:
                c.drive('accum/%s/%s/%s' % (name, md, kd), exe, f, ['-mode', md] + (['-content'] if content else []))
    for kd, tr, mv in rows:
        exe = c.compile('accumulate.cpp', map_defs(kd, tr, mv), opt=opt)
        for md in ('join', 'split', 'element'):
            if md != 'element' or kd in DISCRETE:
                c.drive('accum/%s/%s-%s-%s/%s' % (name, tr, mv[2:], md, kd), exe, f, ['-mode', md] + (['-content'] if content else []))


def C01(c):
    set_design(c, 4 if c.thorough else 3)
    set_suite(c, True, 6 if c.thorough else 5, CORE)
    accum_suite(c, 'sets', 4 if c.thorough else 3, SETK, ['rng', 'cont'], True, sets=CORE if c.thorough else ['int_dyn', 'int_cl', 'dbl_dyn', 'dbl_lo'])
    set_histories(c, ['int_dyn', 'dbl_dyn', 'int_cl', 'dbl_lo'], 20000 if c.thorough else 3000)
    with c.large(40 if c.thorough else 26, 40 if c.thorough else 18, 24 if c.thorough else 14):
        set_suite(c, True, 0, CORE + WIDE if c.thorough else ['int_dyn', 'dbl_dyn', 'int_op', 'wide_dyn', 'wide_cl'])
    with c.large(20, 20 if c.thorough else 12, 12):
        accum_suite(c, 'sets', 0, SETK, ['rng', 'cont'], True, sets=['int_dyn', 'dbl_ro'])
    set_suite(c, True, 4, ['int_dyn' + CK, 'dbl_ro' + CK], name='checked')
    set_histories(c, ['int_dyn'], 10000 if c.thorough else 1500, n=36, hist=400)








def C02(c):
    set_suite(c, False, 6 if c.thorough else 5, CORE)
    accum_suite(c, 'sets', 4 if c.thorough else 3, SETK, ['rng', 'cont'], False, sets=CORE if c.thorough else ['int_lo', 'dbl_ro', 'int_op', 'dbl_dyn'])
    set_histories(c, ['int_lo', 'dbl_ro', 'int_op', 'dbl_dyn'], 20000 if c.thorough else 3000)
    with c.large(40 if c.thorough else 26, 40 if c.thorough else 18, 24 if c.thorough else 14):
        set_suite(c, False, 0, CORE + WIDE if c.thorough else ['int_ro', 'dbl_lo', 'int_cl', 'wide_op', 'wide_lo'])
    with c.large(20, 20 if c.thorough else 12, 12):
        accum_suite(c, 'sets', 0, SETK, ['rng', 'cont'], False, sets=['int_cl', 'dbl_dyn'])
    set_suite(c, False, 4, ['int_cl' + CK, 'dbl_dyn' + CK], name='checked')
    set_histories(c, ['dbl_dyn'], 10000 if c.thorough else 1500, n=36, hist=400)








TR = dict(pa='partial_absorber', pe='partial_enricher', ta='total_absorber', te='total_enricher')
COMB = dict(M_int='plus', M_double='plus', M_long='plus', M_max='max', M_min='min', M_set='set', M_itvset='set', M_bitor='bitor', M_bitxor='bitxor', M_cat='cat', M_uint='plus',
            M_bitand='bitand', M_et='bitand', M_keep='keep', M_ins='ins', M_star='star', M_bits='set', M_own='plus', M_nest='plus', M_float='plus', M_short='plus', M_llong='plus', M_ldbl='plus')


def map_defs(kd, tr, mv):
    return [k(kd), 'MAINT=' + TR[tr], 'MAINV=' + mv]


def map_suite(c, name, ops, n, rows, content, big=False, workers=3, opt='-O0', src='maps.cpp'):
    """rows: (codec, traits, value codec); both styles of each"""
    sel = {'%s-%s-%s' % (tr, COMB[mv], st) for kd, tr, mv in rows for st in ('join', 'split')}
    f = c.emit('map_' + name, 'IntervalMaps', dict(N=n, Selected=sel, OpSet=set(ops), Big=big), invariants=['WF'], constraint='InV', workers=workers)
    for kd, tr, mv in rows:
        exe = c.compile(src, map_defs(kd, tr, mv), opt=opt)
        for st in ('join', 'split'):
            c.drive('maps/%s/%s-%s-%s/%s' % (name, tr, mv[2:], st, kd), exe, f, ['-mode', st] + (['-content'] if content else []))


def map_histories(c, rows, events, n=12, hist=60, judged=()):
    for i, (kd, tr, mv) in enumerate(rows):
        exe = c.compile('maphist.cpp', map_defs(kd, tr, mv))
        nm = '%s_%s_%s_%d' % (kd, tr, mv[2:], n)
        t = c.record('hist_' + nm, exe, c.seed * 1000 + 500 + i, events, ['-mode', str(n), '-only', str(hist)] + (['-content'] if judged else []))
        c.validate('trace_maps_' + nm, 'TraceMaps', t, dict(N=n, KM=4, KS=2, Total=tr[0] == 't', Absorbs=tr[1] == 'a', Combiner=COMB[mv],
                   Adopt=bool(judged), Judged=Raw('{%s}' % ', '.join('"%s"' % q for q in judged))))


def map_design(c):
    for tot in (False, True):
        for ab in (False, True):
            big = c.thorough
            c.submit(c.tlc, 'map_history_design_%d%d' % (tot, ab), 'MapHistory', dict(N=2, KM=2 if big else 1, KS=1, Total=tot, Absorbs=ab, Combiner='plus'),
                     spec='HSpec', invariants=['TypeOK'], constraint='Small', workers=4 if big else 1)


# which value types are taken with which traits and codecs
ROWS_A = [('int_dyn', 'pa', 'M_int'), ('dbl_dyn', 'pe', 'M_double'), ('int_ro', 'ta', 'M_int'), ('int_cl', 'te', 'M_int'),
          ('dbl_lo', 'pa', 'M_set'), ('int_op', 'pe', 'M_max'), ('int_lo', 'ta', 'M_bitor'), ('dbl_ro', 'te', 'M_set')]
ROWS_B = [('int_dyn', 'pe', 'M_set'), ('dbl_dyn', 'pa', 'M_int'), ('dbl_dyn', 'te', 'M_double'), ('int_dyn', 'ta', 'M_set'),
          ('int_lo', 'pa', 'M_max'), ('int_ro', 'pe', 'M_int'), ('int_op', 'te', 'M_bitor'), ('int_cl', 'pa', 'M_itvset')]
ROWS_C = [('int_ro', 'pa', 'M_cat'), ('int_dyn', 'te', 'M_cat'), ('dbl_dyn', 'pa', 'M_min'), ('int_lo', 'pe', 'M_min'), ('int_cl', 'pe', 'M_bitor'), ('int_dyn', 'pa', 'M_bitor'),
          ('dbl_ro', 'pa', 'M_bitxor'), ('int_op', 'pe', 'M_bitxor'), ('int_dyn', 'ta', 'M_max'), ('int_lo', 'te', 'M_max'), ('int_ro', 'pe', 'M_itvset'), ('dbl_lo', 'te', 'M_long')]
# further functors and user-defined value types
ROWS_D = [('int_dyn', 'pa', 'M_star'), ('int_dyn', 'pa', 'M_keep'), ('dbl_ro', 'pe', 'M_keep'), ('int_lo', 'pa', 'M_bitand'), ('dbl_dyn', 'pe', 'M_et'), ('int_ro', 'pa', 'M_ins'), ('int_dyn', 'te', 'M_ins'),
          ('dbl_dyn', 'pa', 'M_bits'), ('int_cl', 'pe', 'M_bits'), ('int_op', 'pa', 'M_own'), ('dbl_lo', 'pe', 'M_own'), ('int_dyn', 'ta', 'M_nest'), ('int_ro', 'pa', 'M_nest'), ('dbl_dyn', 'te', 'M_float')]
# every arithmetic type has its own inverse
ROWS_N = [('int_dyn', 'te', 'M_short'), ('int_ro', 'ta', 'M_llong'), ('dbl_dyn', 'te', 'M_ldbl'), ('int_op', 'ta', 'M_long'), ('dbl_lo', 'ta', 'M_float')]
WIDE_ROWS = [('wide_dyn', 'pa', 'M_int'), ('wide_cl', 'te', 'M_int'), ('wideg_dyn', 'pe', 'M_set')]
ADD = ['add', 'sub']
ADDC = ['addC', 'subC']


def map_property(c, pair_ops, cont_ops, content, rows, hist):
    """pair operands over more atoms; map and set operands over fewer"""
    t = c.thorough
    o = '-O1' if t else '-O0'
    if t:
        rows = ROWS_A + ROWS_B + ROWS_C + ROWS_D
        map_suite(c, 'pairs', pair_ops, 5, rows, content, opt=o, workers=4)
        map_suite(c, 'pairs_values', pair_ops, 4, rows, content, big=True, opt=o, workers=4)
        map_suite(c, 'operands', cont_ops, 3, rows, content, big=True, opt=o, workers=4)
        map_suite(c, 'operands4', cont_ops, 4, ROWS_A[:4] + ROWS_B[:4], content, opt=o, workers=4)
        map_histories(c, ROWS_A + ROWS_B, 12000)
    else:
        map_suite(c, 'pairs', pair_ops, 4, rows, content, workers=4)
        map_suite(c, 'operands', cont_ops, 3, rows, content, workers=2)
        map_histories(c, hist, 2500)
    map_histories(c, hist[::-1][:4 if t else 1], 6000 if t else 1200, n=30, hist=300)




def large_maps(c, pair_ops, cont_ops, content, rows):
    """a sample of maps of many segments"""
    t = c.thorough
    with c.large(24, 24 if t else 12, 14 if t else 9):
        map_suite(c, 'pairs', pair_ops, 0, rows if t else rows[:4], content)
    with c.large(24, 24 if t else 12, 2):
        map_suite(c, 'operands', cont_ops, 0, rows if t else rows[:4], content)


CHECKED_ROWS = [('int_dyn' + CK, 'pa', 'M_int'), ('dbl_dyn' + CK, 'pe', 'M_set')]


def checked_maps(c, pair_ops, cont_ops, content):
    """wrong uses of iterators and memory that happen to go well otherwise"""
    map_suite(c, 'checked_pairs', pair_ops, 3, CHECKED_ROWS, content)
    map_suite(c, 'checked_operands', cont_ops, 2, CHECKED_ROWS, content)


def C03(c):
    map_suite(c, 'numbers', ADD + ADDC, 2, ROWS_N, True)
    map_property(c, ADD, ADDC, True, ROWS_A + [('dbl_dyn', 'pa', 'M_min'), ('int_op', 'pa', 'M_own')], [('int_dyn', 'te', 'M_int'), ('dbl_dyn', 'pa', 'M_set')])
    large_maps(c, ADD, ADDC, True, ROWS_A)
    checked_maps(c, ADD, ADDC, True)
    map_suite(c, 'wide', ADD, 3, WIDE_ROWS, True)






def C04(c):
    map_design(c)
    map_property(c, ADD + ['ins', 'set'], ADDC, False, ROWS_B[:6] + [('int_cl', 'pe', 'M_bits'), ('int_dyn', 'pa', 'M_star')], [('int_ro', 'pa', 'M_int'), ('dbl_dyn', 'pe', 'M_int')])
    large_maps(c, ADD + ['ins', 'set'], ADDC, False, ROWS_B)
    checked_maps(c, ADD + ['ins', 'set'], ADDC, False)
    map_suite(c, 'wide', ADD + ['ins', 'set'], 3, WIDE_ROWS, False)
    # the invariants hold after every operation
    rows = ROWS_A + ROWS_B + ROWS_C[:4] if c.thorough else ROWS_A[:4] + ROWS_B[:2]
    map_suite(c, 'other_pairs', ['era', 'eraK', 'and', 'andK', 'flip'], 4 if c.thorough else 3, rows, False, workers=4)
    map_suite(c, 'other_operands', ['insC', 'eraC', 'eraKC', 'andC', 'flipC', 'andKC'], 3, rows if c.thorough else rows[:5], False, workers=4)
    with c.large(20, 8, 2):
        map_suite(c, 'other_operands', ['insC', 'eraC', 'eraKC', 'andC', 'flipC', 'andKC'], 0, rows[:2] + rows[4:5], False)






def C05(c):
    map_property(c, ['ins', 'era', 'set', 'eraK'], ['insC', 'eraC', 'eraKC'], True, ROWS_A[1::2] + ROWS_B[1::2] + [('int_ro', 'pa', 'M_cat'), ('dbl_ro', 'pe', 'M_keep')], [('int_cl', 'pe', 'M_int'), ('dbl_dyn', 'pa', 'M_int')])
    large_maps(c, ['ins', 'era', 'set', 'eraK'], ['insC', 'eraC', 'eraKC'], True, ROWS_B[::-1])
    checked_maps(c, ['ins', 'era', 'set', 'eraK'], ['insC', 'eraC', 'eraKC'], True)
    map_suite(c, 'wide', ['ins', 'era', 'set', 'eraK'], 3, WIDE_ROWS, True)






# element by element the sum of a total map with & as its combiner is not associative
def accumulable(rows):
    return [r for r in rows if r[2] != 'M_star' and not (r[1][0] == 't' and COMB[r[2]] == 'bitand')]


def C06(c):
    rows = accumulable(ROWS_A + ROWS_B + ROWS_C + ROWS_D if c.thorough else ROWS_A + [('int_ro', 'pa', 'M_cat')])
    acc = ['rng', 'pair', 'cont', 'keys']
    accum_suite(c, 'maps', 2, row_kinds(rows), acc, False, rows=rows, big=c.thorough, opt='-O1' if c.thorough else '-O0')
    if c.thorough:
        accum_suite(c, 'maps3', 3, row_kinds(rows[:8]), [x for x in acc if x != 'cont'], False, rows=rows[:8], opt='-O1')
    map_property(c, ['and', 'flip', 'andK'], ['andC', 'flipC', 'andKC'], True, ROWS_A[0::2] + ROWS_B[0::2] + [('dbl_dyn', 'pa', 'M_bits'), ('int_ro', 'pa', 'M_ins'), ('int_lo', 'pa', 'M_bitand')], [('int_dyn', 'pa', 'M_set'), ('dbl_lo', 'te', 'M_int')])
    large_maps(c, ['and', 'flip', 'andK'], ['andC', 'flipC', 'andKC'], True, ROWS_A[2:] + ROWS_A[:2])
    with c.large(16, 14 if c.thorough else 8, 8):
        accum_suite(c, 'maps', 0, row_kinds(rows[:6] if c.thorough else rows[:2]), acc, False, rows=rows[:6] if c.thorough else rows[:2])
    checked_maps(c, ['and', 'flip', 'andK'], ['andC', 'flipC', 'andKC'], True)
    map_suite(c, 'wide', ['and', 'flip', 'andK'], 3, WIDE_ROWS, True)






def query_suite(c, name, asked, n, codecs=(), rows=(), only='', big=False, workers=3, opt='-O0'):
    """every question of the groups asked about every state"""
    sel = ({'set'} if codecs else set()) | {'%s-%s-split' % (tr, COMB[mv]) for kd, tr, mv in rows}
    f = c.emit('q_' + name, 'Queries', dict(N=n, Selected=sel, Asked=set(asked), Big=big), invariants=['WF'], workers=workers)
    ask = [d for d, g in (('ASK_SIZES', {'un', 'seg'}), ('ASK_LOOKUP', {'rng', 'key', 'pair'}), ('ASK_CONTAINERS', {'cont', 'keys'})) if g & set(asked)]
    args = ['-only', only] if only else []
    for kd in codecs:
        exe = c.compile('queries.cpp', [k(kd)] + ask, opt=opt)
        for st in ('join', 'sep', 'split'):
            c.drive('queries/%s/%s/%s' % (name, st, kd), exe, f, ['-mode', st] + args)
    for kd, tr, mv in rows:
        exe = c.compile('queries.cpp', map_defs(kd, tr, mv) + ask, opt=opt)
        for st in ('join', 'split'):
            c.drive('queries/%s/%s-%s-%s/%s' % (name, tr, mv[2:], st, kd), exe, f, ['-mode', st] + args)


def query_property(c, lookups, conts, only, rows):
    t = c.thorough
    o = '-O1' if t else '-O0'
    rows = ROWS_A + ROWS_B + ROWS_C + ROWS_D if t else rows
    if lookups:
        query_suite(c, 'sets', lookups, 7 if t else 6, codecs=CORE + (EXOTIC if t else []), opt=o)
        query_suite(c, 'maps', lookups, 5 if t else 4, rows=rows, opt=o)
    rows = [r for r in rows if r[2] != 'M_bits']  # that codomain has no iterators, which inclusion of codomains needs
    if conts:
        query_suite(c, 'set_pairs', conts, 6 if t else 5, codecs=CORE + (EXOTIC if t else []), only=only, opt=o, workers=4)
        query_suite(c, 'map_pairs', conts, 4 if t else 3, rows=rows, only=only, opt=o, workers=4)
        if t:
            query_suite(c, 'map_pairs_values', conts, 3, rows=rows, only=only, big=True, opt=o)


def large_queries(c, lookups, conts, only, rows):
    """a sample of containers of many segments"""
    t = c.thorough
    if lookups:
        with c.large(40, 60 if t else 30, 40 if t else 20):
            query_suite(c, 'sets', lookups, 0, codecs=CORE + WIDE[6:] if t else CORE[::2] + ['block_dyn', 'block_cl'])
            query_suite(c, 'maps', lookups, 0, rows=rows if t else rows[:3])
    if conts:
        with c.large(30, 50 if t else 24, 2):
            query_suite(c, 'set_pairs', conts, 0, codecs=CORE if t else CORE[1::3], only=only)
            query_suite(c, 'map_pairs', conts, 0, rows=rows if t else rows[:3], only=only)


def checked_queries(c, lookups, conts, only):
    if lookups:
        query_suite(c, 'checked_sets', lookups, 4, codecs=['int_dyn' + CK])
        query_suite(c, 'checked_maps', lookups, 3, rows=CHECKED_ROWS)
    if conts:
        query_suite(c, 'checked_set_pairs', conts, 3, codecs=['int_dyn' + CK], only=only)
        query_suite(c, 'checked_map_pairs', conts, 2, rows=CHECKED_ROWS, only=only)


def asked_histories(c, judged, sets, rows):
    """questions in the middle of long histories"""
    t = c.thorough
    set_histories(c, sets if t else sets[:2], 8000 if t else 2000, hist=200, judged=judged)
    set_histories(c, sets[:1], 6000 if t else 1500, n=40, hist=500, judged=judged)
    map_histories(c, rows if t else rows[:2], 6000 if t else 1500, hist=200, judged=judged)


def C07(c):
    query_property(c, ['rng', 'key', 'pair'], ['cont', 'keys'], 'contain', ROWS_A)
    large_queries(c, ['rng', 'key', 'pair'], ['cont', 'keys'], 'contain', ROWS_A)
    checked_queries(c, ['rng', 'key', 'pair'], ['cont', 'keys'], 'contain')
    asked_histories(c, ['rng', 'key', 'pair', 'cont'], ['int_dyn', 'dbl_lo', 'int_cl', 'dbl_dyn', 'str_dyn'], ROWS_A)








def C08(c):
    c.submit(c.tlc, 'order_laws', 'Queries', dict(N=4 if c.thorough else 3, Selected={'set', 'pa-plus-split', 'te-plus-split'} if not c.thorough else {'set'}, Asked=Raw('{}'), Big=False, OutFile=''), invariants=['WF', 'OrderLaws'], workers=2)
    query_property(c, [], ['cont', 'keys'], 'relate', ROWS_B)
    large_queries(c, [], ['cont', 'keys'], 'relate', ROWS_B)
    checked_queries(c, [], ['cont', 'keys'], 'relate')
    asked_histories(c, ['relate'], ['dbl_dyn', 'int_op', 'int_dyn', 'dbl_ro', 'date_dyn'], ROWS_B)








def C10(c):
    query_property(c, ['un', 'seg'], [], '', ROWS_A[:4] + ROWS_B[:2])
    large_queries(c, ['un', 'seg'], [], '', ROWS_A)
    checked_queries(c, ['un', 'seg'], [], '')
    asked_histories(c, ['un'], ['int_lo', 'dbl_dyn', 'int_dyn', 'dbl_lo', 'date_dyn', 'str_dyn'], ROWS_A[1:] + ROWS_A[:1])








LOW = [k(c) + ' -DVF_LOW -DVF_BASE=0 -DVF_UBASE=0u' for c in ('uchar_ro', 'uchar_lo', 'uchar_cl', 'uchar_op', 'uchar_dyn', 'uint_ro', 'uint_lo', 'uint_cl', 'uint_op', 'uint_dyn')]


def HIGH(n):
    """values reaching up to the last one that has a successor"""
    return [k(c) + ' -DVF_BASE=%d -DVF_UBASE=(%du)' % (254 - n, 4294967294 - n) for c in ('uchar_ro', 'uchar_lo', 'uchar_cl', 'uchar_op', 'uchar_dyn', 'uint_op', 'uint_dyn')]


def C09(c):
    t = c.thorough
    g = 7 if t else 4
    f = c.emit('algebra', 'IntervalAlgebra', dict(G=g, Kinds={'d', 'c'}, Bounds={0, 1, 2, 3}), workers=4)
    c.submit(c.tlc, 'algorithms', 'IntervalAlgebra', dict(G=5 if t else 3, Kinds={'d', 'c'}, Bounds={0, 1, 2, 3}, OutFile=''), invariants=['Algorithms'], workers=2)
    c.submit(c.tlc, 'laws', 'IntervalAlgebra', dict(G=2, Kinds={'d', 'c'}, Bounds={0, 1, 2, 3}, OutFile=''), invariants=['Laws'], workers=2)
    todo = [k(x) for x in CORE + EXOTIC + GAPS] + LOW + HIGH(g)
    if not t:
        todo = [k(x) for x in CORE + ['intg_dyn', 'intg_cl', 'intg_op', 'dblg_dyn', 'dblg_ro', 'dblg_lo', 'str_dyn', 'rat_dyn', 'date_ro', 'ptime_dyn', 'schar_cl'] + GAPS] + LOW[:5] + [LOW[9]] + HIGH(g)[:5]
    # the default interval type can be chosen among the static ones: the factories then shift the bounds
    dflt = ['right_open', 'left_open', 'closed', 'open']
    todo += [k(x) + ' -DBOOST_ICL_USE_STATIC_BOUNDED_INTERVALS -DBOOST_ICL_DISCRETE_STATIC_INTERVAL_DEFAULT=%s_interval' % d for d in dflt for x in (('int_ro', 'int_dyn', 'intg_dyn') if t else ('int_dyn',))]
    for x in todo:
        exe = c.compile('intervals.cpp', [x])
        c.drive('intervals/' + x.replace('MAINK=K_', '').replace('-DVF_', '').replace('-DBOOST_ICL_', ''), exe, f)


DISCRETE = ['int_ro', 'int_lo', 'int_cl', 'int_op', 'int_dyn']


def C12(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    ex = [e for e in EXOTIC if not e.startswith(('flt', 'str', 'rat', 'dblg'))]
    query_suite(c, 'sets', ['seg'], 8 if t else 6, codecs=DISCRETE + (ex if t else ['intg_dyn', 'uchar_ro', 'date_dyn']), opt=o)
    rows = [r for r in ROWS_A + ROWS_B + ROWS_C if r[0].startswith('int')]
    query_suite(c, 'maps', ['seg'], 5 if t else 4, rows=rows if t else rows[:5], opt=o)
    with c.large(40, 120 if t else 50, 2):
        query_suite(c, 'sets', ['seg'], 0, codecs=DISCRETE)
        query_suite(c, 'maps', ['seg'], 0, rows=rows[:8] if t else rows[:3])
    checked_queries(c, ['seg'], [], '')
    asked_histories(c, ['elem'], ['int_dyn', 'int_op', 'int_ro', 'int_lo', 'intg_cl', 'date_dyn'], rows)









def hint_suite(c, name, n, ln, kinds, ops, big=False, sets=(), rows=(), workers=3, opt='-O0', extra=()):
    f = c.emit('hints_' + name, 'Hints', dict(N=n, Selected=set(kinds), Len_=ln, PieceOps=set(ops), Big=big), spec='SSpec', invariants=['WF'], constraint='InV', workers=workers)
    modes = [('join', 'join'), ('sep', 'sep'), ('split', 'split'), ('element', 'element')]
    for kd in sets:
        exe = c.compile('hints.cpp', [k(kd)] + list(extra), opt=opt)
        for md, _ in modes:
            if md != 'element' or kd in DISCRETE + ['intg_dyn', 'uchar_ro', 'date_dyn']:
                c.drive('hints/%s/%s/%s' % (name, md, kd), exe, f, ['-mode', md])
    for kd, tr, mv in rows:
        exe = c.compile('hints.cpp', map_defs(kd, tr, mv) + list(extra), opt=opt)
        for md in ('join', 'split', 'element'):
            if md != 'element' or kd in DISCRETE:
                c.drive('hints/%s/%s-%s-%s/%s' % (name, tr, mv[2:], md, kd), exe, f, ['-mode', md])


SETK = ['set-join', 'set-sep', 'set-split']


def row_kinds(rows):
    return ['%s-%s-%s' % (tr, COMB[mv], st) for kd, tr, mv in rows for st in ('join', 'split')]


def C11(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    c.submit(c.tlc, 'hinted_steps', 'Hints', dict(N=4 if t else 3, Selected=set(SETK + ['pa-plus-join', 'te-plus-split']), Len_=2, PieceOps={'add', 'ins'}, Big=False, OutFile=''),
             invariants=['WF', 'OrderIrrelevant', 'InsertKeeps'], constraint='InV', workers=2)
    rows = [('int_dyn', 'pa', 'M_int'), ('dbl_dyn', 'te', 'M_double'), ('int_cl', 'pe', 'M_set'), ('int_ro', 'pa', 'M_min'), ('int_op', 'te', 'M_max'), ('dbl_lo', 'ta', 'M_int'), ('int_lo', 'pa', 'M_cat')]
    if t:
        rows = ROWS_A + ROWS_B + ROWS_C + ROWS_D
        hint_suite(c, 'sets', 5, 2, SETK, ['add'], sets=CORE + EXOTIC, opt=o)
        hint_suite(c, 'sets3', 4, 3, SETK, ['add'], sets=CORE, opt=o)
        hint_suite(c, 'maps', 3, 2, row_kinds(rows), ['add', 'ins'], rows=rows, opt=o, workers=4)
        hint_suite(c, 'maps_values', 3, 2, row_kinds(ROWS_A), ['add', 'ins'], big=True, rows=ROWS_A, opt=o, workers=4)
        hint_suite(c, 'maps4', 4, 2, row_kinds(ROWS_A[:4]), ['add', 'ins'], rows=ROWS_A[:4], opt=o, workers=4)
        map_histories(c, ROWS_A[:4], 12000)
        set_histories(c, ['int_dyn', 'dbl_dyn'], 12000)
    else:
        hint_suite(c, 'sets', 5, 2, SETK, ['add'], sets=CORE, opt=o)
        hint_suite(c, 'sets3', 3, 3, SETK, ['add'], sets=['int_dyn', 'dbl_ro'], opt=o)
        hint_suite(c, 'maps', 3, 2, row_kinds(rows), ['add', 'ins'], rows=rows, opt=o, workers=4)
        map_histories(c, [('int_lo', 'pe', 'M_int')], 2000)
    with c.large(24, 14 if t else 9, 10 if t else 6):
        hint_suite(c, 'sets', 0, 2, SETK, ['add'], sets=CORE if t else ['int_dyn', 'dbl_lo'])
        hint_suite(c, 'maps', 0, 2, row_kinds(rows[:6] if t else rows[:2]), ['add', 'ins'], rows=rows[:6] if t else rows[:2])
    hint_suite(c, 'checked_sets', 3, 2, SETK, ['add'], sets=['int_dyn' + CK])
    hint_suite(c, 'checked_maps', 2, 2, row_kinds(CHECKED_ROWS), ['add', 'ins'], rows=CHECKED_ROWS)






PAIR_OPS = ['add', 'sub', 'ins', 'era', 'set', 'eraK', 'andK', 'and', 'flip']
MAP_OPS = ['addC', 'subC', 'insC', 'eraC', 'andC', 'flipC', 'eraKC', 'andKC']


def element_suite(c, name, n, kinds, ops, sets=(), rows=(), big=False, workers=3, opt='-O0'):
    f = c.emit('elements_' + name, 'ElementContainers', dict(N=n, Selected=set(kinds), OpSet=set(ops), Big=big), invariants=['WF'], constraint='InV', workers=workers)
    for kd in sets:
        c.drive('elements/%s/%s' % (name, kd), c.compile('elements.cpp', [k(kd)], opt=opt), f)
    for kd, tr, mv in rows:
        c.drive('elements/%s/%s-%s/%s' % (name, tr, mv[2:], kd), c.compile('elements.cpp', map_defs(kd, tr, mv), opt=opt), f)


# element maps over different key types
ROWS_E = [('int_dyn', 'pa', 'M_int'), ('intg_dyn', 'pe', 'M_int'), ('int_dyn', 'ta', 'M_int'), ('uchar_ro', 'te', 'M_int'), ('int_dyn', 'pa', 'M_set'), ('date_dyn', 'pe', 'M_max'), ('int_dyn', 'te', 'M_set'),
          ('int_dyn', 'ta', 'M_max'), ('int_dyn', 'pe', 'M_bitor'), ('int_dyn', 'pa', 'M_min'), ('int_dyn', 'te', 'M_double'), ('int_dyn', 'pe', 'M_set'), ('int_dyn', 'pa', 'M_cat'), ('int_dyn', 'ta', 'M_set')]
ROWS_E += [(('int_dyn' if i % 2 else 'intg_dyn'), r[1], r[2]) for i, r in enumerate(ROWS_D) if r[2] not in ('M_nest', 'M_star', 'M_bits')]


def C14(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    rows = ROWS_E if t else ROWS_E[:8]
    kinds = ['%s-%s-join' % (tr, COMB[mv]) for kd, tr, mv in rows]
    setops = ['add', 'sub', 'and', 'flip', 'addC', 'subC', 'andC', 'xorC', 'ask']
    element_suite(c, 'sets', 5 if t else 4, ['set'], setops, sets=['int_dyn', 'intg_dyn', 'uchar_ro', 'date_dyn'], opt=o)
    element_suite(c, 'maps', 3, kinds, PAIR_OPS + MAP_OPS + ['ask'], rows=rows, opt=o, workers=4)
    if t:
        element_suite(c, 'maps_values', 3, kinds, PAIR_OPS + MAP_OPS + ['ask'], rows=rows, big=True, opt=o, workers=4)
        element_suite(c, 'maps4', 4, kinds, PAIR_OPS, rows=rows, opt=o, workers=4)
    with c.large(24, 24 if t else 10, 10):
        element_suite(c, 'sets', 0, ['set'], setops, sets=['int_dyn', 'intg_dyn'])
        element_suite(c, 'maps', 0, kinds[:6] if t else kinds[:3], PAIR_OPS + MAP_OPS + ['ask'], rows=rows[:6] if t else rows[:3])
    element_suite(c, 'checked_sets', 3, ['set'], setops, sets=['int_dyn' + CK])
    element_suite(c, 'checked_maps', 2, ['pa-plus-join'], PAIR_OPS + MAP_OPS + ['ask'], rows=CHECKED_ROWS[:1])






def convert_suite(c, name, n, kinds, sets=(), rows=(), big=False, workers=3, opt='-O0'):
    f = c.emit('convert_' + name, 'Conversions', dict(N=n, Selected=set(kinds), Big=big), invariants=['TypeOK', 'RoundTrips'], properties=['ContentKept'], constraint='One', workers=workers)
    for kd in sets:
        c.drive('convert/%s/%s' % (name, kd), c.compile('convert.cpp', [k(kd)], opt=opt), f)
    for kd, tr, mv in rows:
        c.drive('convert/%s/%s-%s/%s' % (name, tr, mv[2:], kd), c.compile('convert.cpp', map_defs(kd, tr, mv), opt=opt), f)


def C13(c):
    t = c.thorough
    rows = ROWS_A + ROWS_B + ROWS_C + [r for r in ROWS_D if r[2] != 'M_bits'] + ROWS_N if t else ROWS_A[:4] + ROWS_B[:4] + [('int_ro', 'pa', 'M_cat'), ('dbl_lo', 'pe', 'M_own')]
    kinds = ['%s-%s-join' % (tr, COMB[mv]) for kd, tr, mv in rows]
    convert_suite(c, 'sets', 9 if t else 7, ['set'], sets=CORE + EXOTIC if t else CORE + ['intg_dyn', 'str_dyn', 'date_ro', 'uchar_dyn'])
    convert_suite(c, 'maps', 5 if t else 4, kinds, rows=rows)
    if t:
        convert_suite(c, 'maps_values', 4, kinds, rows=rows, big=True)
    with c.large(40, 80 if t else 30, 4):
        convert_suite(c, 'sets', 0, ['set'], sets=CORE if t else CORE[::2])
        convert_suite(c, 'maps', 0, kinds[:8] if t else kinds[:3], rows=rows[:8] if t else rows[:3])
    convert_suite(c, 'checked_sets', 5, ['set'], sets=['int_dyn' + CK])
    convert_suite(c, 'checked_maps', 3, row_kinds(CHECKED_ROWS[:1])[:1], rows=CHECKED_ROWS[:1])






def value_suite(c, name, n, kinds, sets=(), rows=(), big=False, workers=4, opt='-O0'):
    f = c.emit('values_' + name, 'Values', dict(N=n, Selected=set(kinds), Big=big), spec='SSpec', invariants=['WF'], workers=workers)
    styles = {x.split('-')[-1] for x in kinds}
    for kd in sets:
        exe = c.compile('values.cpp', [k(kd)], opt=opt)
        for md in ('join', 'sep', 'split', 'element'):
            if md in styles and (md != 'element' or kd in DISCRETE + ['intg_dyn', 'uchar_dyn', 'date_dyn']):
                c.drive('values/%s/%s/%s' % (name, md, kd), exe, f, ['-mode', md])
    for kd, tr, mv in rows:
        exe = c.compile('values.cpp', map_defs(kd, tr, mv), opt=opt)
        for md in ('join', 'split', 'element'):
            if md != 'element' or kd in DISCRETE:
                c.drive('values/%s/%s-%s-%s/%s' % (name, tr, mv[2:], md, kd), exe, f, ['-mode', md])


def C15(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    kinds = ['set-join', 'set-sep', 'set-split', 'set-element']
    rows = ROWS_A + ROWS_B + ROWS_C + [r for r in ROWS_D if r[2] != 'M_star'] if t else [('int_dyn', 'pa', 'M_int'), ('dbl_dyn', 'pe', 'M_set'), ('int_ro', 'pa', 'M_cat'), ('int_cl', 'te', 'M_int'), ('int_op', 'ta', 'M_bitor')]
    mk = ['%s-%s-%s' % (tr, COMB[mv], st) for kd, tr, mv in rows for st in ('join', 'split', 'element')]
    c.submit(c.tlc, 'statements', 'Values', dict(N=2, Selected=set(kinds + (['pa-plus-join', 'te-plus-split'] if t else [])), Big=False, OutFile=''), invariants=['WF', 'Frames', 'FormIrrelevant'], constraint='Bounded', workers=2)
    value_suite(c, 'sets', 3, kinds, sets=CORE + EXOTIC if t else ['int_dyn', 'dbl_dyn', 'int_cl', 'dbl_ro', 'int_lo'], opt=o)
    value_suite(c, 'maps', 2, mk, rows=rows, opt=o)
    set_histories(c, ['int_dyn', 'dbl_lo'], 20000 if t else 2000)
    map_histories(c, [('int_op', 'pa', 'M_int')], 12000 if t else 2000)
    with c.large(20, 8 if t else 5, 4):
        value_suite(c, 'sets', 0, kinds, sets=CORE if t else ['int_dyn', 'dbl_lo'])
        value_suite(c, 'maps', 0, mk[:12] if t else mk[:6], rows=rows[:4] if t else rows[:2])
    value_suite(c, 'checked_sets', 2, kinds, sets=['int_dyn' + CK])
    value_suite(c, 'checked_maps', 1, row_kinds(CHECKED_ROWS[:1]), rows=CHECKED_ROWS[:1])






def law_suite(c, name, n, kinds, nonneg=False, sets=(), rows=(), workers=4, opt='-O0'):
    f = c.emit('laws_' + name, 'Laws', dict(N=n, Selected=set(kinds), Nonneg=nonneg, Big=False), invariants=['Hold'], workers=workers)
    styles = {x.split('-')[-1] for x in kinds}
    for kd in sets:
        exe = c.compile('laws.cpp', [k(kd)], opt=opt)
        for md in ('join', 'sep', 'split', 'element'):
            if md in styles and (md != 'element' or kd in DISCRETE + ['intg_dyn', 'uchar_dyn', 'date_dyn']):
                c.drive('laws/%s/%s/%s' % (name, md, kd), exe, f, ['-mode', md])
    for kd, tr, mv in rows:
        exe = c.compile('laws.cpp', map_defs(kd, tr, mv), opt=opt)
        for md in ('join', 'split', 'element'):
            if md in styles and (md != 'element' or kd in DISCRETE):
                c.drive('laws/%s/%s-%s-%s/%s' % (name, tr, mv[2:], md, kd), exe, f, ['-mode', md])


def C16(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    coll = [('int_dyn', 'pa', 'M_set'), ('dbl_dyn', 'pe', 'M_set'), ('int_cl', 'pa', 'M_itvset')]
    quan = [('int_dyn', 'pa', 'M_int'), ('dbl_dyn', 'pe', 'M_int'), ('int_cl', 'ta', 'M_int'), ('int_lo', 'te', 'M_double')]
    unsi = [('int_ro', 'pa', 'M_uint'), ('dbl_lo', 'pe', 'M_uint'), ('dbl_dyn', 'ta', 'M_uint'), ('int_op', 'te', 'M_uint')]
    if t:
        coll += [(kd, tr, mv) for kd, tr, mv in ROWS_A + ROWS_B + ROWS_C if COMB[mv] == 'set' and tr in ('pa', 'pe')]
        quan += [(kd, tr, mv) for kd, tr, mv in ROWS_A + ROWS_B + ROWS_C if COMB[mv] == 'plus']
    styles = ('join', 'split', 'element')
    kinds = lambda rows, ss: ['%s-%s-%s' % (tr, COMB[mv], s) for kd, tr, mv in rows for s in ss]
    law_suite(c, 'sets', 3, ['set-join', 'set-sep', 'set-split', 'set-element'], sets=CORE + EXOTIC if t else ['int_dyn', 'dbl_dyn', 'int_cl', 'dbl_ro', 'int_lo'], opt=o)
    law_suite(c, 'collectors', 2, kinds(coll, styles), rows=coll, opt=o)
    law_suite(c, 'quantifiers', 2, kinds(quan, styles), rows=quan, opt=o)
    law_suite(c, 'unsigned', 2, kinds(unsi, styles), nonneg=True, rows=unsi, opt=o)
    if t:
        law_suite(c, 'sets4', 4, ['set-join', 'set-element'], sets=CORE, opt=o)
        law_suite(c, 'quantifiers3', 3, kinds(quan[:4], ('join', 'element')), rows=quan[:4], opt=o)
        law_suite(c, 'collectors3', 3, kinds(coll[:2], ('join',)), rows=coll[:2], opt=o)
    with c.large(16, 9 if t else 6, 2):
        law_suite(c, 'sets', 0, ['set-join', 'set-sep', 'set-split', 'set-element'], sets=['int_dyn', 'dbl_ro'])
    with c.large(12, 8 if t else 4, 2):
        law_suite(c, 'collectors', 0, kinds(coll[:2], styles), rows=coll[:2])
        law_suite(c, 'quantifiers', 0, kinds(quan[:2], styles), rows=quan[:2])
    law_suite(c, 'checked', 2, row_kinds(CHECKED_ROWS[:1]), rows=CHECKED_ROWS[:1])






# more representations of the domain and of intervals: other value types, the user's own interval
# types, values next to the limits of a narrow type, other implementation containers and dialects
OWN = ['own_ro', 'own_lo', 'own_cl', 'own_op']
TIMES = ['date_op', 'ddur_lo', 'ptime_lo', 'tdur_cl', 'tdur_dyn', 'rat_lo']


def limits(n):
    lo = ['uchar_ro -DVF_BASE=0', 'uchar_cl -DVF_BASE=0', 'uchar_dyn -DVF_BASE=1', 'uchar_lo -DVF_BASE=1', 'uchar_op -DVF_BASE=1', 'uint_dyn -DVF_UBASE=1u', 'uint_ro -DVF_UBASE=0u']
    return lo + [x + ' -DVF_BASE=%d -DVF_UBASE=(%du)' % (255 - n, 4294967295 - n) for x in ('uchar_ro', 'uchar_cl', 'uchar_dyn', 'uchar_lo', 'uchar_op', 'uint_dyn', 'uint_op')]


DIALECTS = ['int_dyn -DICL_USE_BOOST_MOVE_IMPLEMENTATION', 'int_dyn -std=c++20', 'dbl_dyn -std=c++14', 'dbl_dyn -DICL_USE_BOOST_MOVE_IMPLEMENTATION']


def C17(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    n = 5 if t else 4
    more = EXOTIC + TIMES + OWN
    set_suite(c, False, n, (more + WIDE if t else more[::2] + more[1::4] + WIDE[::5]) + limits(n) + DIALECTS)
    rows = [('uchar_dyn', 'pa', 'M_int'), ('date_ro', 'pe', 'M_int'), ('str_dyn', 'ta', 'M_int'), ('intg_cl', 'te', 'M_int'), ('dblg_dyn', 'pa', 'M_set'), ('own_op', 'pa', 'M_int'), ('ptime_dyn', 'pe', 'M_max'),
            ('rat_dyn', 'te', 'M_int'), ('intg_lo', 'pa', 'M_set'), ('tdur_cl', 'pa', 'M_int')]
    if t:
        rows += [(kd, ('pa', 'pe', 'ta', 'te')[i % 4], ('M_int', 'M_set')[i % 2]) for i, kd in enumerate(EXOTIC + TIMES + OWN)]
    m = 4 if t else 3
    edge = [(x, tr, 'M_int') for x, tr in zip(limits(m) if t else limits(m)[2::3], ('pa', 'te', 'pe', 'ta') * 4)] + [(x, 'pa', 'M_int') for x in (DIALECTS if t else DIALECTS[:1])]
    map_suite(c, 'pairs', ['add', 'sub', 'ins', 'set', 'era', 'eraK', 'and', 'andK', 'flip'], m, rows + edge, False, opt=o, workers=4)
    map_suite(c, 'maps', ['addC', 'subC', 'andC', 'flipC', 'insC', 'eraC', 'eraKC', 'andKC'], 2, rows + edge, False, opt=o)
    look = more if t else ['uchar_cl', 'date_op', 'str_ro', 'intg_op', 'dblg_lo', 'dblg_ro', 'own_lo', 'ddur_lo', 'rat_dyn', 'tdur_dyn', 'ull_dyn']
    query_suite(c, 'sets', ['rng', 'key', 'seg', 'un'], 5 if t else 4, codecs=look + (limits(5) + WIDE[6:] if t else limits(4)[::3] + ['blockg_cl']) + DIALECTS[:2], opt=o)
    query_suite(c, 'maps', ['rng', 'key', 'seg', 'un'], 3, rows=rows + edge[:2], opt=o)
    query_suite(c, 'set_pairs', ['cont'], 4 if t else 3, codecs=look[:6] if t else look[:3], opt=o)
    hint_suite(c, 'sets', 3, 2, SETK, ['add'], sets=more + WIDE if t else look[1::2] + DIALECTS[:1] + ['wide_lo'], opt=o)
    convert_suite(c, 'sets', 5, ['set'], sets=more + WIDE if t else look[0::2] + DIALECTS[:1] + ['wide_op'])
    set_histories(c, ['str_dyn', 'date_dyn', 'own_cl'], 12000 if t else 1500)
    map_histories(c, [('uchar_cl', 'pe', 'M_int')], 12000 if t else 1500)


TRAIT_OPS = ['add', 'sub', 'ins', 'era', 'set', 'eraK', 'andK', 'and', 'flip', 'addC', 'subC', 'insC', 'eraC', 'andC', 'flipC', 'eraKC', 'andKC', 'undo', 'redo', 'undoC', 'redoC']


def trait_suite(c, name, n, rows, big=False, opt='-O0', workers=4):
    """rows: (codec, value codec); the four traits of it side by side"""
    f = c.emit('traits_' + name, 'Traits', dict(N=n, Selected={'%s-%s' % (COMB[mv], st) for kd, mv in rows for st in ('join', 'split')}, OpSet=set(TRAIT_OPS), Big=big), spec='JSpec', invariants=['WF', 'Same'], workers=workers)
    for kd, mv in rows:
        exe = c.compile('traits.cpp', [k(kd), 'MAINV=' + mv], opt=opt)
        for st in ('join', 'split'):
            c.drive('traits/%s/%s-%s/%s' % (name, mv[2:], st, kd), exe, f, ['-mode', st])


def trait_histories(c, rows, events, n=12):
    for i, (kd, mv) in enumerate(rows):
        exe = c.compile('traits.cpp', [k(kd), 'MAINV=' + mv])
        for st in ('join', 'split'):
            nm = '%s_%s_%s' % (kd, mv[2:], st)
            t = c.record('hist_' + nm, exe, c.seed * 1000 + 700 + i, events, ['-mode', st])
            c.validate('trace_traits_' + nm, 'TraceTraits', t, dict(N=n, Selected={'%s-%s' % (COMB[mv], st)}, OpSet=set(TRAIT_OPS), Big=False, OutFile=''), invariants=['WF', 'Same'])


def C18(c):
    t = c.thorough
    o = '-O1' if t else '-O0'
    c.submit(c.tlc, 'trait_histories', 'Traits', dict(N=3 if t else 2, Selected={'plus-join', 'plus-split', 'set-join', 'max-split'}, OpSet={'add', 'set', 'era', 'eraK', 'andK', 'sub'}, Big=False, OutFile=''), spec='HSpec', invariants=['WF', 'Same'], constraint='SmallV', workers=2)
    rows = [('int_dyn', 'M_int'), ('dbl_dyn', 'M_set'), ('int_cl', 'M_max'), ('int_ro', 'M_bitor'), ('dbl_lo', 'M_double')]
    if t:
        rows += [('int_op', 'M_min'), ('dbl_dyn', 'M_bitxor'), ('int_lo', 'M_itvset'), ('int_dyn', 'M_cat'), ('date_dyn', 'M_int'), ('dbl_ro', 'M_int')]
        trait_suite(c, 'all', 3, rows, opt=o)
        trait_suite(c, 'values', 2, rows, big=True, opt=o)
        trait_histories(c, rows[:5], 8000)
    else:
        trait_suite(c, 'all', 2, rows + [('dbl_dyn', 'M_bitxor'), ('int_lo', 'M_min')])
        trait_suite(c, 'three', 3, rows[:2])
        trait_histories(c, [('int_dyn', 'M_int'), ('dbl_ro', 'M_set')], 1500)
    with c.large(20, 14 if t else 8, 8):
        trait_suite(c, 'all', 0, rows[:4] if t else rows[:2])
    trait_suite(c, 'checked', 2, [('int_dyn' + CK, 'M_int')])






FILTERS = ['eraseIt', 'eraseRange', 'eraseIf', 'addIf', 'assignIf']


def filter_suite(c, name, n, kinds, ops, sets=(), rows=(), big=False, workers=3, opt='-O0'):
    f = c.emit('filters_' + name, 'Filters', dict(N=n, Selected=set(kinds), Ops=set(ops), Big=big), invariants=['WF', 'Partition'], properties=['WholeSegments', 'Exact'], constraint='One', workers=workers)
    for kd in sets:
        c.drive('filters/%s/%s' % (name, kd), c.compile('filters.cpp', [k(kd)], opt=opt), f)
    for kd, tr, mv in rows:
        c.drive('filters/%s/%s-%s/%s' % (name, tr, mv[2:], kd), c.compile('filters.cpp', map_defs(kd, tr, mv), opt=opt), f)


def C19(c):
    t = c.thorough
    rows = ROWS_A + ROWS_B + ROWS_C if t else ROWS_A[:4] + ROWS_B[:4] + [('int_ro', 'pa', 'M_cat')]
    kinds = ['%s-%s-join' % (tr, COMB[mv]) for kd, tr, mv in rows]
    sets = CORE + EXOTIC if t else ['int_dyn', 'int_cl', 'dbl_dyn', 'dbl_lo', 'intg_dyn']
    filter_suite(c, 'sets', 6 if t else 5, ['set'], FILTERS[:3], sets=sets)
    filter_suite(c, 'set_updates', 5 if t else 4, ['set'], FILTERS[3:], sets=[x for x in sets if x in DISCRETE + ['intg_dyn', 'date_dyn', 'uchar_dyn']])
    filter_suite(c, 'maps', 4, kinds, FILTERS[:3], rows=rows, big=t)
    filter_suite(c, 'map_updates', 3, kinds, FILTERS[3:], rows=rows, big=t)
    with c.large(24, 30 if t else 12, 8, 20 if t else 10):
        filter_suite(c, 'sets', 0, ['set'], FILTERS[:3], sets=['int_dyn', 'dbl_lo'])
        filter_suite(c, 'maps', 0, kinds[:4], FILTERS[:3], rows=rows[:4])
    with c.large(16, 12 if t else 6, 2, 9 if t else 5):
        filter_suite(c, 'set_updates', 0, ['set'], FILTERS[3:], sets=['int_cl'])
        filter_suite(c, 'map_updates', 0, kinds[:4 if t else 2], FILTERS[3:], rows=rows[:4 if t else 2])
    filter_suite(c, 'checked_sets', 3, ['set'], FILTERS, sets=['int_dyn' + CK])
    filter_suite(c, 'checked_maps', 3, ['pa-plus-join'], FILTERS, rows=CHECKED_ROWS[:1])






def stream_suite(c, name, n, kinds, sets=(), rows=(), big=False, workers=2, opt='-O0'):
    f = c.emit('streams_' + name, 'Streams', dict(N=n, Selected=set(kinds), Big=big), invariants=['Faithful'], workers=workers)
    for kd in sets:
        exe = c.compile('streams.cpp', [k(kd)], opt=opt)
        for md in kinds:
            c.drive('streams/%s/%s/%s' % (name, md, kd), exe, f, ['-mode', md])
    for kd, tr, mv in rows:
        c.drive('streams/%s/%s-%s/%s' % (name, tr, mv[2:], kd), c.compile('streams.cpp', map_defs(kd, tr, mv), opt=opt), f)


def C20(c):
    t = c.thorough
    readable = CORE + ['short_op', 'uint_lo', 'll_cl', 'ull_dyn', 'flt_dyn', 'intg_dyn', 'intg_op', 'dblg_ro', 'dblg_lo', 'rat_dyn']
    sets = readable if t else readable[:8] + readable[12:18:2]
    rows = [('int_dyn', 'pa', 'M_int'), ('dbl_dyn', 'pe', 'M_double'), ('int_ro', 'ta', 'M_int'), ('int_cl', 'te', 'M_int'), ('int_op', 'pe', 'M_max'), ('int_lo', 'ta', 'M_bitor'), ('dbl_ro', 'pa', 'M_set'), ('dbl_lo', 'te', 'M_float')]
    kinds = ['%s-%s-join' % (tr, COMB[mv]) for kd, tr, mv in rows]
    stream_suite(c, 'sets', 7 if t else 6, ['set', 'interval'], sets=sets)
    stream_suite(c, 'maps', 5 if t else 4, kinds, rows=rows)
    if t:
        stream_suite(c, 'map_values', 4, kinds, rows=rows, big=True)
    with c.large(40, 60 if t else 24, 40):
        stream_suite(c, 'sets', 0, ['set', 'interval'], sets=['int_dyn', 'dbl_ro'])
        stream_suite(c, 'maps', 0, kinds[:3], rows=rows[:3])
    stream_suite(c, 'checked', 4, ['set'], sets=['int_dyn' + CK])


BOUND = ('Exhaustive within the stated bounds (every well-formed state over N atoms, every operation and operand, every API spelling, several domain codecs); '
         'longer histories over more atoms are sampled and validated event by event. Trusts TLC, the projection in harness/ and g++.')
TECH = {
    'C01': ('TLA+ spec of interval sets (TLC); exhaustive replay of emitted transitions + trace validation', BOUND),
    'C02': ('TLA+ spec of interval sets with segmentation (TLC); exhaustive replay + trace validation', BOUND),
    'C03': ('TLA+ spec of interval maps (TLC); exhaustive replay of add/subtract transitions + trace validation', BOUND),
    'C04': ('TLA+ spec of interval maps with segmentation and absorption (TLC); exhaustive replay + trace validation', BOUND),
    'C05': ('TLA+ spec of interval maps (TLC); exhaustive replay of insert/erase/set transitions + trace validation', BOUND),
    'C06': ('TLA+ spec of interval maps (TLC); exhaustive replay of intersection/symmetric difference transitions + trace validation', BOUND),
    'C07': ('TLA+ spec of the observers (TLC); every answer compared with the real containers', BOUND),
    'C08': ('TLA+ spec of the relations, order laws checked by TLC; every answer compared with the real containers', BOUND),
    'C09': ('TLA+ spec of the interval algebra, bound-wise algorithms refined to element sets by TLC; every answer compared with the real interval types', BOUND),
    'C10': ('TLA+ spec of sizes, ranges, domains and gaps (TLC); every answer compared with the real containers', BOUND),
    'C11': ('TLA+ spec of hinted and bulk insertion (TLC); every script replayed from every hint position of the real containers + trace validation of hinted histories', BOUND),
    'C13': ('TLA+ spec of the conversions, content and round trips checked by TLC; every conversion replayed into the real containers', BOUND),
    'C16': ('TLA+ spec of the documented laws over container terms, every instance checked by TLC; both sides of every instance replayed on the real containers', BOUND),
    'C17': ('TLA+ specs of the containers (TLC); the same transitions replayed over every representation of domain, interval, order and implementation container + trace validation', BOUND),
    'C18': ('TLA+ spec of four maps with the four traits under one history, relations between them checked by TLC; every joint transition replayed into the real maps + trace validation of joint histories', BOUND),
    'C19': ('TLA+ spec of segment-wise removal and filtered updates, every predicate enumerated by TLC; every step replayed into the real containers', BOUND),
    'C15': ('TLA+ spec of a store of container values and the statements on it, frame conditions checked by TLC; every script of statements replayed with named and temporary operands + trace validation', BOUND),
    'C14': ('TLA+ spec of element maps and sets, refined by the interval containers (TLC); every step and answer replayed into icl::map and std::set', BOUND),
    'C20': ('TLA+ spec of the written text and its reader, faithfulness checked by TLC; every text of the real containers taken apart and compared', BOUND),
    'C12': ('TLA+ spec of the element sequence (TLC); every iteration compared with the real containers', BOUND),
}


def run(prop):
    c = Check(prop)
    try:
        globals()[prop](c)
    except Exception:
        import traceback
        print('CHECK ERROR: ' + traceback.format_exc())
        return 2
    return c.finish()
