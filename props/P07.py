from vflib import Unit
UNITS = []
for e, f in (('append', ['M_parser_append', 'M_parser_ensure_space']), ('append_mark', ['M_parser_peek_mark', 'M_parser_marked_buffer_start']), ('first', ['M_parser_create', 'M_parser_init']), ('dwrite', ['M_parser_direct_write_start', 'M_parser_direct_write_end']),
             ('consume', ['M_parser_consume', 'M_parser_len', 'M_parser_current_offset']), ('rewind_', ['M_parser_mark', 'M_parser_mark_len', 'M_parser_mark_rewind', 'M_parser_rewind_int', 'M_parser_mark_clear']), ('trunc', ['M_parser_truncate']), ('reset', ['M_parser_reset']),
             ('read_bytes', ['M_parser_read_bytes', 'M_parser_read_bytes_max', 'M_parser_read_str', 'M_parser_read_str_max', 'M_parser_peek_bytes']), ('read_new', ['M_parser_read_parser', 'M_parser_read_parser_mark', 'M_parser_read_strdup', 'M_parser_read_strdup_mark']), ('read_mark', ['M_parser_read_bytes_mark'])):
    UNITS.append(Unit('u_' + e.strip('_'), 'P07u.c', e, funcs=f, unwind=4, srcdirs=['base/data', 'base'], solver='cadical'))
def U(name, entry, bound, d=(), unwind=7, f=(), **k):
    UNITS.append(Unit(name, 'P07.c', entry, level='bounded', bound=bound, funcs=f, defines=list(d), unwind=unwind, **k))
SF = ['consume_whitespace'] * 4 + ['consume_until', 'consume_boundary', 'consume_charset', 'consume_not_charset', 'consume_predicate_max', 'consume_eol'] + ['truncate_whitespace'] * 4 + ['truncate_until', 'truncate_charset', 'truncate_predicate_max', 'is_predicate', 'is_charset', 'compare']
for k, f in enumerate(SF):
    for n in (0, 1, 4): U('%s%s_%d' % (f, k % 4 if 'white' in f else '', n), 'srch', '%d bytes of data left, 2 byte pattern or set' % n, ['-DNB=%d' % n, '-DK=%d' % k], 8, ['M_parser_' + f], quick=n != 1)
S32 = (('base/data/m_buf.c', r'(#define\s+M_BUF_INITIAL_SIZE\s+)1024', r'\g<1>32'),)
RF = ['read_bytes_until', 'read_bytes_boundary', 'read_bytes_predicate', 'read_bytes_charset', 'read_buf_until', 'read_buf_boundary', 'read_buf_predicate', 'read_buf_charset', 'read_parser_until', 'read_parser_boundary', 'read_parser_predicate', 'read_parser_charset', '', '', 'read_buf', 'read_buf_max', '', '', 'read_buf_mark']
def NAT(name, entry, d, f):
    UNITS.append(Unit(name, 'P07.c', entry, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, defines=d, seconds=6))
for k, f in enumerate(RF):
    if f.startswith('read_parser'): NAT(f, 'rd', ['-DNB=6', '-DK=%d' % k], ['M_parser_' + f])
    elif f: U(f, 'rd', '3 bytes of data left', ['-DNB=3', '-DK=%d' % k, '-DVF_CAP=128'], 9, ['M_parser_' + f], subst=S32)
for k, f in enumerate(('M_parser_read_int_binary', 'M_parser_read_uint', 'M_parser_read_uint_bcd')):
    for n in (3, 9):
        if k == 2 and n == 9: NAT('bcd_n', 'num', ['-DNB=9', '-DK=2'], [f])
        else: U('num%d_%d' % (k, n), 'num', 'data of %d bytes, numbers of up to 9' % n, ['-DNB=%d' % n, '-DK=%d' % k], 13, [f])
U('numtext', 'numtext', 'digits and one non-digit, 4 bytes', ['-DNB=4'], 8, ['M_parser_read_uint_ascii'])
U('lines', 'lines', '5 bytes', ['-DNB=5'], 8, ['M_parser_current_line', 'M_parser_current_column'])
for k in (0, 2): U('split_0_%d' % k, 'split', 'no data', ['-DNB=0', '-DK=%d' % k, '-DVF_CAP=128'], 8, ['M_parser_split_pat'])
for k in (0, 2): U('split_1_%d' % k, 'split', '1 byte, one byte delimiter', ['-DNB=1', '-DK=%d' % k, '-DVF_CAP=128'], 8, ['M_parser_split_pat'], quick=False)
for k in (0, 1, 2, 3): NAT('split_n%d' % k, 'split', ['-DNB=7', '-DK=%d' % k], ['M_parser_split_pat'])
U('frame_3', 'frame', '3 bytes', ['-DNB=3', '-DVF_CAP=128'], 8, ['M_parser_read_stxetxlrc_message'])
NAT('frame_n', 'frame', ['-DNB=6'], ['M_parser_read_stxetxlrc_message'])
META = dict(
    title='A parser hands out exactly the data given to it, once, in order',
    statement='For every sequence of appends, consumes, marks, rewinds, truncates and reads, what remains in a parser plus what was consumed is exactly the data appended, the reported offset, line and column are those of the position, and data between a mark and the cursor survives later appends. Each search or charset operation consumes, truncates or copies exactly the bytes its definition selects (pattern, boundary, character set, predicate, whitespace, line, frame), an operation that cannot be satisfied takes nothing, and no operation touches memory outside the data or the caller\'s buffer.',
    quant='all data, all positions, marks and sizes, any interleaving of appends and reads',
    why='The parser moves and reallocates its data under live marks and cursors and most errors depend on which part of which pattern falls where; the tests use a few fixed strings.',
    files=['base/data/m_parser.c'],
    mech=[('cursor, mark and storage bookkeeping', 'base/data/m_parser.c'), ('searches over the remaining data', 'base/data/m_parser.c')],
    note='Append, direct write, consume, marks, rewind, truncate, reset, exact/limited reads, reads into new parsers and strings: proved for any sizes and any state satisfying the representation invariant (bulk memory operations and the allocator by contract). Searches, charset/predicate operations, binary/text/BCD integers, line tracking: contents symbolic, sizes bounded. Splitting, framed messages of more than 3 bytes and searches into new parsers are beyond the verifier\'s reach and only get a seeded native run, which counts as nothing proved. Not claimed: what happens to the data when the output buffer of a charset or pattern read is too small, and 10 byte BCD.')
