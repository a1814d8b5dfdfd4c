from vflib import Unit
UNITS = []
SUB = (('base/data/m_buf.c', r'(#define\s+M_BUF_INITIAL_SIZE\s+)1024', r'\g<1>8'),)
F = ['M_buf_create', 'M_buf_cancel', 'M_buf_finish', 'M_buf_len', 'M_buf_peek', 'M_buf_truncate', 'M_buf_drop', 'M_buf_merge', 'M_buf_direct_write_start', 'M_buf_direct_write_end', 'M_buf_add_bytes', 'M_buf_add_byte', 'M_buf_add_char', 'M_buf_add_fill', 'M_buf_add_bytes_just']
def U(name, entry, bound=None, d=(), unwind=7, f=(), **k):
    UNITS.append(Unit(name, 'P06.c', entry, level='bounded', bound=bound, funcs=f, defines=list(d), unwind=unwind, **dict(dict(subst=SUB), **k)))
for a in (0, 7, 8, 9, 16):
    for dr in sorted({0, 1, a // 2, a}):
        if dr <= a: U('ops_%d_%d' % (a, dr), 'ops', '%d bytes added, %d dropped, then any operation; growth step reduced to 8' % (a, dr), ['-DA=%d' % a, '-DDROP=%d' % dr], 12, F)
S32 = (('base/data/m_buf.c', r'(#define\s+M_BUF_INITIAL_SIZE\s+)1024', r'\g<1>32'),)
U('ops_1022_3', 'ops', '1022 bytes added, 3 dropped, then any operation (real growth step)', ['-DA=1022', '-DDROP=3'], 12, F, subst=(), quick=False)
for e, f in (('add_bytes', ['M_buf_add_bytes', 'M_buf_add_bytes_transform', 'ensure_space', 'M_buf_consume', 'next_multiple_of_block_size']), ('add_byte', ['M_buf_add_byte', 'M_buf_add_char']), ('add_fill', ['M_buf_add_fill']), ('trunc', ['M_buf_truncate']),
             ('drop', ['M_buf_drop']), ('merge', ['M_buf_merge', 'M_buf_cancel']), ('dwrite', ['M_buf_direct_write_start', 'M_buf_direct_write_end']), ('finish', ['M_buf_finish', 'M_buf_peek', 'M_buf_len'])):
    UNITS.append(Unit('u_' + e, 'P06u.c', e, funcs=f, unwind=45, srcdirs=['base'], solver='cadical'))
for n in range(0, 5):
    for k, fn in enumerate((['M_buf_add_str_upper'], ['M_buf_add_str_lower'], ['M_buf_add_str_transform'], ['M_buf_add_str_max'], ['M_buf_add_str'], ['M_buf_trim'])):
        U('transform_%d_%d' % (n, k), 'transform', 'strings of %d bytes after a dropped prefix' % n, ['-DNB=%d' % n, '-DK=%d' % k], 26, fn, subst=S32)
for n in (0, 1):
    for k in (0, 1): U('quoted_%d_%d' % (n, k), 'quoted', 'strings of %d bytes' % n, ['-DNB=%d' % n, '-DVF_CAP=128', '-DK=%d' % k], 26, ['M_buf_add_str_quoted'], subst=S32)
for k, fn in enumerate(('M_buf_bjoin_str', 'M_buf_sjoin_str', 'M_buf_bjoin_buf', 'M_buf_sjoin_buf')):
    U('join_%d' % k, 'join', '2-3 parts of <= 2 bytes', ['-DK=%d' % k], 26, [fn], subst=S32)
U('bin', 'bin', 'every 64 bit value and width, after a dropped prefix', (), 26, ['M_buf_add_uintbin'], subst=S32)
def NAT(name, entry, d, f):
    UNITS.append(Unit(name, 'P06.c', entry, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, defines=d, seconds=10))
for n in (2, 4): NAT('replace_n%d' % n, 'replace', ['-DNB=%d' % n, '-DK=%d' % (n // 2)], ['M_buf_add_bytes_replace'])
NAT('quoted_n', 'quoted', ['-DNB=5', '-DK=0'], ['M_buf_add_str_quoted'])
for n in (1, 3): NAT('bcd_n%d' % n, 'bcd', ['-DNB=%d' % n], ['M_buf_add_uintbcd'])
NAT('encdec_n', 'encdec', ['-DNB=2'], ['M_buf_add_str_hex', 'M_buf_add_decode', 'M_buf_decode', 'M_buf_encode'])
META = dict(
    title='A buffer holds exactly the bytes put into it',
    statement='For every sequence of adding, filling, joining, trimming, truncating, dropping from the front, direct writing, merging and encoding, a buffer reports as length and content exactly the byte sequence those operations describe, always NUL terminated, whatever has been dropped or grown before. Operations given values that do not fit the requested width refuse them and leave the buffer as it was.',
    quant='all contents, all fill levels, all operations after any dropped prefix',
    why='Buffers misbehave only at particular combinations of capacity, dropped prefix and operation; tests use a few short appends.',
    files=['base/data/m_buf.c'],
    mech=[('data, offset and capacity bookkeeping', 'base/data/m_buf.c'), ('transformed, quoted and joined appends', 'base/data/m_buf.c')],
    note='Create, add, fill, truncate, drop, merge, direct write, finish: proved for any size and any state satisfying the representation invariant, any content index (bulk memory operations and the allocator by contract, growth below 2^40 bytes). Transforms, joins, binary integers: bounded sizes, contents symbolic (growth step mechanically reduced in some units). Replace, BCD, longer quoted strings and in-place encode/decode are out of the verifier\'s reach and only get a seeded native run, which counts as nothing proved.')
