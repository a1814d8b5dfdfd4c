from vflib import Unit
UNITS = []
UNITS.append(Unit('lru_n', 'P24.c', 'lru', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=['M_cache_insert', 'M_cache_get', 'M_cache_remove', 'M_cache_set_max_size', 'M_cache_strvp_insert', 'M_cache_strvp_get', 'M_cache_strvp_remove'], seconds=15, fuzz_len=400))
NL = ['M_llist_create', 'M_llist_destroy', 'M_hashtable_create', 'M_hashtable_destroy']
for e, f in (('insert', 'M_cache_insert'), ('get', 'M_cache_get'), ('remove', 'M_cache_remove')): UNITS.append(Unit('ca_' + e, 'P24u.c', 'ca_' + e, funcs=[f], unwind=18, solver='cadical', nolink=NL, native=False))
UNITS.append(Unit('ca_resize', 'P24u.c', 'ca_resize', funcs=['M_cache_set_max_size'], unwind=18, solver='cadical', nolink=NL, native=False, level='bounded', bound='lowering the limit by one'))
META = dict(
    title='A cache keeps the most recently used entries, up to its limit',
    statement='After every sequence of inserts, lookups, removals and changes of the limit, a cache holds exactly the most recently used entries, never more than its limit: looking up a key succeeds exactly when its entry is held and gives the value last put in for it, inserting into a full cache gives up exactly the least recently used entry, and lowering the limit gives up the least recently used ones. Keys compare with or without case as chosen, and the count agrees. Keys and values are the copies (of the key, of the value) or pointers asked for, and each is released exactly once, when its entry goes or its value is replaced.',
    quant='all operation histories, limits, keys, values and copy/release callbacks',
    why='Which entry goes depends on the whole history of use; the tests do a few inserts with plain pointers.',
    files=['base/cache/m_cache.c', 'base/cache/m_cache_strvp.c'],
    mech=[('hot list and table kept in step', 'base/cache/m_cache.c'), ('reuse of the coldest entry', 'base/cache/m_cache.c')],
    note='insert, get, remove: proved for every number of entries over the contracts of list and hashtable (P12, P13); lowering the limit: by one entry per step (bounded). Histories with real lists and tables: coverage-guided native run against the model.')
