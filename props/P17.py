from vflib import Unit
UNITS = []
def U(name, entry, level='proof', bound=None, d=(), unwind=70, f=(), **k):
    UNITS.append(Unit(name, 'P17.c', entry, level=level, bound=bound, funcs=f, defines=list(d), unwind=unwind, **k))
U('endian', 'endian', f=['M_swap16', 'M_swap32', 'M_swap64', 'M_hton16', 'M_hton32', 'M_hton64', 'M_ntoh16', 'M_ntoh32', 'M_ntoh64', 'M_htol16', 'M_htol32', 'M_htol64', 'M_ltoh16', 'M_ltoh32', 'M_ltoh64'])
U('pow2', 'pow2', f=['M_uint32_is_power_of_two', 'M_uint64_is_power_of_two', 'M_size_t_is_power_of_two', 'M_uint32_round_up_to_power_of_two', 'M_uint64_round_up_to_power_of_two', 'M_size_t_round_up_to_power_of_two', 'M_uint32_round_down_to_power_of_two', 'M_uint64_round_down_to_power_of_two', 'M_size_t_round_down_to_power_of_two'])
U('popcount', 'popcount', f=['M_uint8_popcount', 'M_uint64_popcount'])
U('log2', 'log2_', f=['M_uint32_log2', 'M_uint64_log2'])
U('sign_extend', 'signext', f=['M_sign_extend'])
U('digits', 'digits', f=['M_uint64_count_digits'], unwind=22)
U('exp', 'exp_', f=['M_uint64_exp'])
for d in range(0, 21):
    if d in (0, 17, 18, 19, 20): U('round_%d' % d, 'round_', d=['-DD=%d' % d], f=['M_uint64_prec_round'], unwind=22)
    else:
        vm = '0xFFFFFFFFull' if d < 3 else '0x%xull' % (200 * 10 ** d - 1) if d < 16 else '0xFFFFFFFFFFFFFFFFull'
        U('round_%d' % d, 'round_', 'bounded', 'number <= %s' % vm, d=['-DD=%d' % d, '-DVMAX=%s' % vm], f=['M_uint64_prec_round'], unwind=22, solver='cadical')
for m in (1, 2, 3, 8, 12, 512, 4096, 1 << 40): U('multiple_%d' % m, 'multiple', 'bounded', 'multiple of %d' % m, d=['-DMUL=%dull' % m], f=['M_uint64_round_up_to_nearest_multiple'])
for r in (1, 2, 3, 10, 26, 1 << 16, (1 << 32) + 1, (1 << 63) + 1, (1 << 64) - 1): U('range_%d' % r, 'rrange', 'bounded', 'range size %d' % r, d=['-DRANGE=%dull' % r], f=['M_rand_range'], unwind=5)
U('rstr', 'rstr', 'bounded', 'length <= 4', f=['M_rand_str'], unwind=6)

META = dict(
    title='Integer math, byte order and ranged random helpers are exact for every value',
    statement='For every value in range: byte-order conversions put the bytes in the stated order and invert each other; power-of-two tests and roundings, base-2 logarithm, bit counts, sign extension, digit counts and integer powers return the mathematically exact result; decimal rounding rounds half up and rounding to a multiple returns the nearest multiple not below. A ranged random draw is always inside its half-open range whatever the generator yields, and a random string holds only characters of its set.',
    quant='all 16/32/64-bit values, all decimal shifts, all generator outputs',
    why='Tests check a few values per helper; errors in bit tricks show only at particular bit patterns (a single power of two, a sign bit, a tail of the generator range).',
    files=['base/math/m_bithacks.c', 'base/math/m_round.c', 'base/math/m_prop.c', 'base/math/m_operator.c', 'base/math/m_rand.c', 'base/mem/m_endian.c'],
    mech=[('bit smearing, de Bruijn tables, popcount table', 'base/math/m_bithacks.c'), ('tail rejection', 'base/math/m_rand.c')],
    note='Complete proofs over all values (loops bounded by operand width fully unwound) for byte order, powers of two, log2, popcount, sign extension, digit count, powers, rounding by 0 and 17 or more decimals; rounding by 1-16 decimals, multiples and range sizes are bounded to the listed operands. The generator is replaced by an arbitrary value source in the range units.')
