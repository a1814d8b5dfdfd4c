from vflib import Unit
UNITS = []
HF = ['M_hashtable_insert', 'M_hashtable_get', 'M_hashtable_remove', 'M_hashtable_multi_get', 'M_hashtable_multi_remove', 'M_hashtable_enumerate', 'M_hashtable_enumerate_next']
UNITS.append(Unit('seq_n', 'P12.c', 'seq', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=HF, seconds=15, fuzz_len=400))
UNITS.append(Unit('two_n', 'P12.c', 'two', kind='native', level='bounded', bound='seeded native run, not a proof', funcs=['M_hashtable_duplicate', 'M_hashtable_merge'], seconds=12, fuzz_len=400))
for fl in (0, 1, 3, 4):
    for o in (0, 1): UNITS.append(Unit('step_%d_%d' % (fl, o), 'P12.c', 'step', level='bounded', bound='2 keys, then one operation; flags %d' % fl, funcs=HF, defines=['-DFL=%d' % fl, '-DO=%d' % o, '-DSIZE=2', '-DFILL=0', '-DMAXK=4', '-DMAXV=4'], unwind=6))
UNITS = [u for u in UNITS if not u.name.startswith('step_') or u.name.startswith('step_0')]
for e, f in (('ht_insert', ['M_hashtable_insert', 'M_hashtable_insert_direct']), ('ht_get', ['M_hashtable_get']), ('ht_remove', ['M_hashtable_remove'])):
    UNITS.append(Unit('u_' + e, 'P12u.c', e, funcs=f, srcdirs=['base'], unwind=5, solver='cadical', native=False, fuzz=False))
META = dict(
    title='A hashtable holds exactly the association its operations describe',
    statement='After every sequence of inserts, removals, value removals, merges and duplications, under any hash function, table size and fill percentage, a hashtable answers exactly as the association list those operations describe: the keys put in and not removed, each with its value (or its values, in insertion or sorted order), found or not found accordingly. Enumeration yields every pair exactly once, announces how many there are, and follows insertion or sort order when keys are ordered. The table owns one copy of each key and value and releases each exactly once.',
    quant='all operation histories, keys, values, hash functions, collisions and flag combinations',
    why='Chains, expansions and ownership depend on which keys collide in which order; the tests insert a few fixed keys.',
    files=['base/hash/m_hashtable.c'],
    mech=[('chain insertion and removal', 'base/hash/m_hashtable.c'), ('rehash when the fill percentage is exceeded', 'base/hash/m_hashtable.c'), ('ordered key list', 'base/list/m_llist.c'), ('multi values', 'base/list/m_list.c')],
    note='Insert, get and remove of single-value unordered tables: proved for any table size, hash, and key/value, by the contract of the chain search, chains of up to 3. The chain search, enumeration and history effects on small tables: bounded. Ordered and multi-value tables, expansion, merge and duplicate: coverage-guided native run against the model.')
