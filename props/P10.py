from vflib import Unit
UNITS = []
def NAT(e, f, s): UNITS.append(Unit(e + '_n', 'P10.c', e, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, seconds=s, fuzz_len=500))
NAT('seq', ['M_list_insert', 'M_list_insert_at', 'M_list_take_at', 'M_list_remove_range', 'M_list_remove_val', 'M_list_replace_val', 'M_list_replace_at', 'M_list_swap', 'M_list_remove_duplicates', 'M_list_index_of', 'M_list_count', 'M_list_change_sorting', 'M_list_insert_begin', 'M_list_insert_end'], 15)
NAT('two', ['M_list_duplicate', 'M_list_merge'], 10)
NS = 'M_LIST_NEVERSHRINK'
def LI(e, nm, k, f, d, **kw): UNITS.append(Unit('li_%s_%s%s' % (e, nm, k), 'P10u.c', 'li_' + e, funcs=f, defines=['-DFLAGS=(%s|%s)' % ('M_LIST_STACK' if nm == 'stack' else '0', NS)] + d, unwind=3, solver='cadical', native=False, fuzz=False, **kw))
for nm in ('list', 'stack'):
    for e, f in (('insert_at', ['M_list_insert_at', 'M_list_insert_at_int', 'M_list_grow', 'M_list_shift_data']), ('insert', ['M_list_insert', 'M_list_insert_idx']), ('take_at', ['M_list_take_at']), ('remove', ['M_list_remove_at', 'M_list_remove_range']), ('replace', ['M_list_replace_at', 'M_list_at']), ('swap', ['M_list_swap'])):
        LI(e, nm, '', f, [])
        if e not in ('take_at', 'remove'): LI(e, nm, '_kept', f, ['-DTRACK']); continue
        for c in (1, 2, 3, 4):
            LI(e, nm, '_kept%d_16' % c, f, ['-DTRACK', '-DCASE=%d' % c, '-DCAP=16', '-DMAXN=16'], level='bounded', bound='storage of 16 slots')
            if e == 'take_at': LI(e, nm, '_kept%d' % c, f, ['-DTRACK', '-DCASE=%d' % c, '-DMAXN=65536ULL'], quick=False)
META = dict(
    title='A list is exactly the sequence its operations describe',
    statement='After every sequence of inserts (at the end, at a position, sorted), removals, takes, replacements, swaps and resorting, a list or stack holds exactly the sequence of values those operations describe: its length, the value at each position, count and index_of (by value or pointer) agree with that sequence, a sorted list is in order, a stable one keeps equal values in insertion order, and a set holds no value twice. Merging and duplicating give the values of both or a copy with the same order and callbacks. Every value is copied, handed over or released exactly once.',
    quant='all operation histories, list lengths, capacities, offsets into the storage, values, positions and list kinds',
    why='Where values lie in the storage depends on the history of removals at the front; the tests use a handful of short histories.',
    files=['base/list/m_list.c', 'base/sort/m_sort_binary.c'],
    mech=[('moves within the storage, its offset and growth', 'base/list/m_list.c'), ('index conversion for stacks', 'base/list/m_list.c'), ('match and remove, replace, count', 'base/list/m_list.c'), ('binary search and insert position', 'base/sort/m_sort_binary.c')],
    note='insert, insert_at, take_at, remove_at, remove_range (one value), replace_at and swap of unsorted lists and stacks that never shrink: proved for every length, capacity, offset and position - result, length, storage bounds, and (for insert, insert_at, replace_at, swap) that an arbitrary other value keeps its place. That last part for take_at is proved in the thorough tier and for remove within a storage of 16 slots. Sorted lists, matching by value or pointer, shrinking, merge and duplicate: coverage-guided native run against a model.')
