from vflib import Unit
UNITS = []
def U(name, entry, level='proof', bound=None, d=(), unwind=7, f=(), **k):
    UNITS.append(Unit(name, 'P02.c', entry, level=level, bound=bound, funcs=f, defines=list(d), unwind=unwind, **k))
U('cp_valid', 'cp_valid', f=['M_utf8_is_valid_cp'], min_obl=1)
U('from_cp', 'from_cp', f=['M_utf8_from_cp'])
U('get_cp', 'get_cp', f=['M_utf8_get_cp'])
U('get_chr', 'get_chr', f=['M_utf8_get_chr'])
U('whole', 'whole', 'bounded', 'any string of <= 5 bytes', f=['M_utf8_is_valid', 'M_utf8_cnt', 'M_utf8_cp_at'], d=['-DN=5'], unwind=8)
for e, f, d in (('valid_u', ['M_utf8_is_valid'], ['-DENDP']), ('cnt_u', ['M_utf8_cnt'], ['-DCNT']), ('at_u', ['M_utf8_cp_at'], ['-DCNT']), ('next_u', ['M_utf8_next_chr'], ['-DCNT'])):
    UNITS.append(Unit(e, 'P02u.c', e, kind='dfcc', funcs=f, unwind=5, defines=d, srcdirs=['base/utf8'], preunwind=['M_utf8_get_cp.0:5']))
META = dict(
    title='UTF-8 decoding and encoding accept and produce exactly well-formed text',
    statement='For every byte string, reading a character succeeds exactly when the bytes there are a well-formed, shortest-form sequence of a valid character (no surrogates, noncharacters or values above U+10FFFF), and then returns its code point and the position just after it; writing a code point succeeds exactly when it is valid and fits, and produces the sequence that reads back as it. Validity, character count and access by index over a whole string agree with that character by character, an index at or past the count is an error, and nothing past the terminator is read.',
    quant='all byte strings, all 2^32 code point values, all buffer sizes and indices',
    why='Tests decode a few sample texts; overlong forms, surrogates, truncated sequences and boundary code points are too many to enumerate by hand.',
    files=['base/utf8/m_utf8.c'],
    mech=[('lead byte classes, continuation and overlong checks', 'base/utf8/m_utf8.c'), ('whole string walk', 'base/utf8/m_utf8.c')],
    note='Single-character reading and writing are complete proofs (at most 4 bytes matter, every value symbolic). Whole-string functions: in-bounds walking and end position proved for any length by loop contracts; exact agreement bounded to strings of 5 bytes. Case folding and character class tables are not covered.')
