from vflib import Unit
UNITS = []
for e, f in (('bb_add', ['M_bit_buf_add_bit']), ('bb_update', ['M_bit_buf_update_bit']), ('bb_trunc', ['M_bit_buf_truncate']), ('bb_bytes', ['M_bit_buf_add_bytes']), ('bb_reserve', ['M_bit_buf_reserve']),
             ('bp_uint', ['M_bit_parser_read_uint', 'peek_next_bytes']), ('bp_int', ['M_bit_parser_read_int']), ('bp_small', ['M_bit_parser_peek_bit', 'M_bit_parser_read_bit', 'M_bit_parser_consume', 'M_bit_parser_mark', 'M_bit_parser_mark_len', 'M_bit_parser_mark_rewind', 'M_bit_parser_len', 'M_bit_parser_current_offset'])):
    UNITS.append(Unit('u_' + e, 'P08u.c', e, funcs=f, unwind=2 if e == 'bb_bytes' else 45 if e.startswith('bb') else 10, srcdirs=['base', 'base/data'], solver='cadical', defines=['-DVF_SMALLCOPY=8'] if e in ('bp_uint', 'bp_int') else ['-DABSBUF'] if e in ('bb_add', 'bb_update', 'bb_trunc', 'bb_bytes') else []))
UNITS.append(Unit('u_bp_bytes', 'P08u.c', 'bp_bytes', kind='dfcc', funcs=['M_bit_parser_read_bytes', 'peek_next_bytes'], unwind=10, srcdirs=['base', 'base/data'], solver='cadical'))
SUB = (('base/data/m_buf.c', r'(#define\s+M_BUF_INITIAL_SIZE\s+)1024', r'\g<1>32'),)
def U(name, entry, bound, d=(), unwind=7, f=(), **k):
    UNITS.append(Unit(name, 'P08.c', entry, level='bounded', bound=bound, funcs=f, defines=list(d) + ['-DVF_CAP=128'], unwind=unwind, subst=SUB, **k))
def NAT(name, entry, d, f):
    UNITS.append(Unit(name, 'P08.c', entry, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, defines=d, seconds=6))
PF = ['M_bit_buf_add', 'M_bit_buf_add', 'M_bit_buf_add', 'M_bit_buf_add_bytes', 'M_bit_buf_fill', 'M_bit_buf_set_bit', 'M_bit_buf_add_bitstr']
for k, f in enumerate(PF):
    for nb in ((3,) if k == 6 else (0, 5)):
        for s in ((0,) if k == 6 else (3, 12)):
            if k == 6: NAT('bitstr_n', 'put', ['-DNB=3', '-DK=6', '-DS=0'], [f]); continue
            U('put%d_%d_%d' % (k, nb, s), 'put', '%d bits, then %d' % (nb, s), ['-DNB=%d' % nb, '-DK=%d' % k, '-DS=%d' % s], 34, [f], quick=nb != 0)
for s in (1, 30): U('put0_7_%d' % s, 'put', '7 bits, then %d' % s, ['-DNB=7', '-DK=0', '-DS=%d' % s], 90, ['M_bit_buf_add'])
GF = ['count', 'read_bit_buf', 'read_buf', 'read_strdup', 'read_range', 'consume_to_next', 'read_bytes']
for k, f in enumerate(GF):
    for nb in (0, 3):
        for s in (0, 5, 14):
            if k == 3 and s > 0:
                if s == 14 and nb == 3: NAT('read_strdup_n', 'get', ['-DNB=3', '-DK=3', '-DS=14'], ['M_bit_parser_read_strdup'])
                continue
            U('%s_%d_%d' % (f, nb, s), 'get', '%d bits consumed, %d left' % (nb, s), ['-DNB=%d' % nb, '-DK=%d' % k, '-DS=%d' % s], 24, ['M_bit_parser_' + f], quick=(s != 5 or k == 3) and nb == 3)
for k in (1, 3): NAT('app_n%d' % k, 'app', ['-DNB=5', '-DK=%d' % k, '-DS=12'], ['M_bit_parser_append', 'M_bit_parser_append_uint', 'M_bit_parser_create'])
for k in (0, 2, 4):
    U('app%d' % k, 'app', '5 bits, then 12', ['-DNB=5', '-DK=%d' % k, '-DS=12'], 34, ['M_bit_parser_append', 'M_bit_parser_append_uint', 'M_bit_parser_reset', 'M_bit_parser_create', 'M_bit_parser_create_const', 'ensure_append'])
META = dict(
    title='Bit buffers and bit parsers carry exactly the bits given, in order',
    statement='For every sequence of bit, integer, byte, text, fill, set, update and truncate operations a bit buffer holds exactly the bits those operations describe, most significant first, with the unused bits of the last byte zero. A bit parser hands out exactly those bits at any alignment: unsigned integers and sign-magnitude, one\'s and two\'s complement integers of every width up to 64 have the value their bits denote, counts and ranges count only bits that exist, a read of more bits than remain fails and takes nothing, and nothing outside the data is read.',
    quant='all bit strings, all alignments, all lengths and widths',
    why='Errors appear only at particular alignments of particular widths near the end of the data; the tests check a few byte patterns.',
    files=['base/data/m_bit_buf.c', 'base/data/m_bit_parser.c'],
    mech=[('partial last byte bookkeeping', 'base/data/m_bit_buf.c'), ('unaligned extraction', 'base/data/m_bit_parser.c')],
    note='Adding a bit, adding bytes to whole bytes, update, truncate, reserve; parser position, single bits, integers of every width and format, bytes at any alignment: proved for any size (M_buf by the contracts proved in P06 in some units). Integer, text, fill and padded adds, unaligned byte adds, counts, ranges, searches, reads into buffers and appends to a parser: bounded sizes, all bit values symbolic.')
