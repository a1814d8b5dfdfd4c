from vflib import Unit
UNITS = []
F = ['M_str_to_uint64_ex', 'M_str_to_int64_ex', 'M_str_to_uint32_ex', 'M_str_to_int32_ex']
def U(name, entry, level='bounded', bound=None, d=(), unwind=6, f=F, **k):
    UNITS.append(Unit(name, 'P03.c', entry, level=level, bound=bound, funcs=f, defines=list(d), unwind=unwind, **k))
for b in (0, 2, 8, 10, 16, 36): U('any_%d' % b, 'any', bound='any text of <= 4 characters', d=['-DBASE=%d' % b, '-DN=4'], unwind=7)
for b, n in ((16, 16), (16, 17), (8, 21), (8, 22), (2, 64), (2, 65)): U('digits_%d_%d' % (b, n), 'digits', bound='%d digits' % n, d=['-DBASE=%d' % b, '-DN=%d' % n], unwind=n + 2)
for b in (10, 36): U('edge_%d' % b, 'edge', bound='leading digits from a table of boundary numbers, last 3 symbolic', d=['-DBASE=%d' % b, '-DSYM=%d' % 3], unwind=25)
U('simple', 'simple', bound='text of <= 4 characters', d=['-DN=4'], unwind=7, f=['M_str_to_int32', 'M_str_to_uint32', 'M_str_to_int64', 'M_str_to_uint64'])
U('badbase', 'badbase', 'proof', unwind=4, f=['M_str_to_uint64_ex'])
for b in (2, 10): UNITS.append(Unit('range_u_%d' % b, 'P03u.c', 'range_u', kind='dfcc', defines=['-DBASE=%d' % b], funcs=F[:2], unwind=5, preunwind=['M_str_eq_max_int.0:4', 'M_str_eq_max_int.1:4', 'M_str_caseeq_max.0:4']))

META = dict(
    title='Text-to-integer conversion is exact, saturates on overflow and stays in bounds',
    statement='For every text, length and base, converting text to a signed or unsigned 32 or 64 bit integer skips leading white space, takes one optional sign and (base 16 or auto) one 0x prefix, consumes exactly the following digits valid in the base, and returns their exact value. A value that does not fit is always reported as overflow and saturated to the nearest limit, and text without digits is reported as invalid. The reported end points just past the last digit consumed, and nothing at or past the stated length is read.',
    quant='all texts, all lengths, bases 0, 2, 8, 10, 16 and 36, both signs and widths',
    why='Tests try a few numbers; overflow detection fails only for particular products near the top of the range, and length handling only for unterminated text.',
    files=['base/data/m_str_num.c'],
    mech=[('digit accumulation and overflow test', 'base/data/m_str_num.c'), ('sign, white space and prefix handling', 'base/data/m_str_num.c')],
    note='Bounds safety, end position and saturation are proved for text of any length by loop contracts (bases 2, 10); exact values are bounded units: any text of up to 4 characters, and full-width digit strings (all digits symbolic for power-of-two bases; leading digits from a boundary table and the last 3 symbolic for 10 and 36). A minus sign in front of unsigned text yields the two\'s complement (64 bit) and is not specified for 32 bit.')
