from vflib import Unit
UNITS = []
UNITS.append(Unit('sort_n', 'P11.c', 'sort', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=['M_sort_qsort', 'M_sort_mergesort', 'M_sort_binary_search', 'M_sort_binary_insert_idx'], seconds=15, fuzz_len=60))
UNITS.append(Unit('strs_n', 'P11.c', 'strs', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=['M_sort_compar_str', 'M_sort_compar_str_casecmp', 'M_str_cmpsort', 'M_str_casecmpsort'], seconds=5, fuzz_len=60))
Q = ['M_sort_qsort', 'sort_swap_multiple']
for e in (8, 1):
    UNITS.append(Unit('binary_%d' % e, 'P11u.c', 'bin', kind='dfcc', defines=['-DBIN', '-DE=%d' % e], funcs=['M_sort_binary_idx', 'M_sort_binary_search', 'M_sort_binary_insert_idx'], unwind=3, solver='cadical', native=False))
    for a, c in ((0, 0), (0, 1), (1, 1)): UNITS.append(Unit('merge_%d_%d%d' % (e, a, c), 'P11u.c', 'ms', kind='dfcc', defines=['-DMERGE', '-DE=%d' % e, '-DSA=%d' % a, '-DSC=%d' % c], funcs=['M_sort_mergesort'], unwind=3, solver='cadical', native=False))
    for c in (-1, 0, 1):
        if e == 8: UNITS.append(Unit('qsort_%d_%d_2e20' % (e, c), 'P11u.c', 'qs', kind='dfcc', defines=['-DQS', '-DE=%d' % e, '-DCL=%d' % c, '-DMAXN=(1ULL<<20)'], funcs=Q, unwind=3, solver='cadical', native=False, timeout=600, level='bounded', bound='arrays of up to 2^20 elements'))
        UNITS.append(Unit('qsort_%d_%d' % (e, c), 'P11u.c', 'qs', kind='dfcc', defines=['-DQS', '-DE=%d' % e, '-DCL=%d' % c], funcs=Q, unwind=3, solver='cadical', native=False, timeout=1500, quick=False))
    UNITS.append(Unit('pivot_%d' % e, 'P11u.c', 'pivot', defines=['-DPIVOT', '-DE=%d' % e], funcs=['qsort_choose_pivot', 'qsort_median'], unwind=3, solver='cadical', native=False))
for e in (2, 8, 16): UNITS.append(Unit('insertion_%d' % e, 'P11u.c', 'ins', defines=['-DINS', '-DES=%d' % e], funcs=['M_sort_insertion', 'sort_swap', 'M_sort_swaptype'], unwind=17, solver='cadical', native=False))
for e in (1, 3, 8, 16): UNITS.append(Unit('swap_%d' % e, 'P11u.c', 'swp', defines=['-DSWAP=%d' % e], funcs=['sort_swap', 'sort_swap_multiple', 'M_sort_swaptype'], unwind=65, solver='cadical', native=False, level='bounded', bound='ranges of up to 24 bytes'))
UNITS.append(Unit('compar', 'P11u.c', 'cmp', defines=['-DCMP'], funcs=['M_sort_compar_u64', 'M_sort_compar_vp', 'M_sort_compar_u64_desc', 'M_sort_compar_vp_desc'], unwind=3, solver='cadical', native=False))
META = dict(
    title='Sorting and binary search are right for every array and order',
    statement='For every array length, element size and alignment and every consistent order, quicksort and merge sort leave exactly the elements that were there, whole and in order (merge sort keeps equal elements in their order), touching nothing outside the array. Binary search finds an element exactly when an equal one is there and gives its index, the first one when stable, and the insert index is a place that keeps the array sorted, after all equal elements when stable. The supplied comparison functions are total orders (by value, address, or bytes of the string, with or without case) and their descending forms the reverse.',
    quant='all arrays (length, element size, alignment, content, duplicates) and orders',
    why='Which partition, swap kind and merge path is taken depends on length, alignment and order of the data; the tests sort a few short arrays.',
    files=['base/sort/m_sort_qsort.c', 'base/sort/m_sort_mergesort.c', 'base/sort/m_sort_binary.c', 'base/sort/m_sort_compar.c'],
    mech=[('partition and swaps', 'base/sort/m_sort_qsort.c'), ('merge', 'base/sort/m_sort_mergesort.c'), ('halving and scan for the first or last equal', 'base/sort/m_sort_binary.c')],
    note='Binary search and merge sort: loop invariants over an oracle comparison, every length (element sizes 1 and 8). Quicksort partition: loop invariants tracking an arbitrary element through every swap - arrays up to 2^20 elements in the quick tier, any length in the thorough tier; recursion by induction on the length. Insertion sort of the short arrays: complete. Block swap: up to 24 bytes. String comparisons: native run.')
