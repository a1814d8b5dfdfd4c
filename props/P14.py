from vflib import Unit
UNITS = []
def U(e, f, d=(), kind='plain', name=None, **k):
    UNITS.append(Unit(name or 'u_' + e, 'P14u.c', e, kind=kind, funcs=f, defines=list(d), solver='cadical', srcdirs=['base', 'base/mem'], nolink=['M_fprintf'], nobody=('fputs', 'abort'), **k))
U('mm_malloc', ['M_malloc', 'M_malloc_zero', 'M_malloc_register_errorcb'], unwind=5)
U('mm_free', ['M_free', 'M_mem_secure_clear'], unwind=2)
for z in (0, 1): U('mm_realloc', ['M_realloc_zero' if z else 'M_realloc', 'M_realloc_int'], ['-DZERO=%d' % z], name='u_mm_realloc%d' % z, unwind=2, timeout=400)
U('mm_realloc', ['M_realloc', 'M_realloc_zero'], ['-DNUL'], name='u_mm_realloc_null', unwind=2)
U('mm_dup', ['M_memdup', 'M_memdup_max'], unwind=2)
U('mm_cbs', ['M_malloc_register_errorcb', 'M_malloc_deregister_errorcb', 'M_malloc_clear_errorcb'], ['-DSMALLMEM'], unwind=15)
U('mm_misc', ['M_mem_swap_bytes'], unwind=2)
U('mm_eq', ['M_mem_eq'], ['-DEQ'], kind='dfcc')
for k, f in enumerate(['M_mem_count', 'M_mem_calc_lrc', 'M_mem_calc_crc8_ccitt', 'M_mem_calc_crc16_ccitt', 'M_mem_calc_crc32']):
    U('mm_sum', [f], ['-DSUM=%d' % k], kind='dfcc', name='u_' + f)
for k, f in enumerate(['M_mem_mem', 'M_mem_rmem']):
    U('mm_find', [f] , ['-DSEARCH=%d' % (k + 1)], kind='dfcc', name='u_' + f, native=False)
U('mm_find', ['M_mem_mempos', 'M_mem_contains'], ['-DSEARCH=3'], kind='dfcc', name='u_M_mem_mempos', native=False)
UNITS.append(Unit('find_n', 'P14u.c', 'mm_findn', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=['M_mem_mem', 'M_mem_rmem', 'M_mem_mempos', 'M_mem_contains', 'M_mem_chr', 'M_mem_cmpsort'], srcdirs=['base'], seconds=6))
for e in ('mm_malloc', 'mm_realloc', 'mm_dup'):
    UNITS.append(Unit('n_' + e, 'P14u.c', e, kind='native', level='bounded', bound='seeded native run, not a proof', srcdirs=['base'], seconds=4))
META = dict(
    title='Allocated memory has size, content, life asked for; memory functions are exact',
    statement='Every allocation, zeroed allocation, duplication and reallocation of any size gives a distinct, aligned block of at least the size asked for with the promised content (kept, copied, or zero wherever it is new), refuses sizes that cannot be recorded, and on exhaustion asks the registered callbacks newest first, retrying after each that helps. Freeing or reallocating overwrites the whole old block before giving it back exactly once. Comparison, search, counting, swap and the LRC, CRC-8, CRC-16 and CRC-32 checksums return exactly the mathematically defined result for data of any length and touch nothing else.',
    quant='all sizes, contents, positions, callback tables and allocation failures',
    why='Sizes near the limits, shrink-then-grow histories, failing allocations and every content/length pair are unbounded; the tests use a few small blocks.',
    files=['base/mem/m_mem.c'],
    mech=[('recorded size, clearing and copying of blocks', 'base/mem/m_mem.c'), ('error callback table', 'base/mem/m_mem.c'), ('table driven checksums', 'base/mem/m_mem.c')],
    note='All proved for any size on the real code; libc malloc/free/memset/memmove/memchr by their contracts (malloc may fail). Checksums: loop invariant against a ghost bit-by-bit definition. Byte ordering (cmpsort) and libc wrappers: native run only.')
