from vflib import Unit
UNITS = []
def NAT(e, f, s): UNITS.append(Unit(e + '_n', 'P13.c', e, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, seconds=s, fuzz_len=400))
NAT('seq', ['M_llist_insert', 'M_llist_remove_val', 'M_llist_find', 'M_llist_count', 'M_llist_remove_duplicates', 'M_llist_set_first', 'M_llist_set_last', 'M_llist_change_sorting'], 15)
NAT('two', ['M_llist_duplicate', 'M_llist_merge'], 10)
NAT('que', ['M_queue_insert', 'M_queue_remove', 'M_queue_take', 'M_queue_take_first', 'M_queue_foreach'], 10)
ON = ['M_llist_insert', 'M_llist_insert_first', 'M_llist_insert_before', 'M_llist_insert_after', 'M_llist_remove_node', 'M_llist_take_node', 'M_llist_set_first', 'M_llist_set_last', 'M_llist_move_before', 'M_llist_move_after']
def LL(c, o, x, y, k, quick=True): UNITS.append(Unit('ll_%s_%s%s' % (ON[o][8:], 'circ' if c else 'line', '_%d_%d' % (x, y) if o > 7 else ''), 'P13u.c', 'll_op', funcs=[ON[o], 'M_llist_insert_unsorted' if o < 4 else 'M_llist_node_unlink'], defines=['-DOP=%d' % o, '-DCIRC=%d' % c, '-DK=%d' % k, '-DX=%d' % x, '-DY=%d' % y], srcdirs=['base'], unwind=k + 2, solver='cadical', nolink=['M_rand', 'M_rand_create', 'M_rand_destroy'], quick=quick, native=False, fuzz=False))
for c in (0, 1):
    for o in range(8): LL(c, o, 3, 3, 7)
    for o in (8, 9):
        LL(c, o, 3, 3, 7)
        for d in (1, 2, 3, 4, 5): LL(c, o, 3, 3 + d, 7 + d, d < 4); LL(c, o, 3 + d, 3, 7 + d, d < 4)
META = dict(
    title='A linked list or queue is exactly the sequence its operations describe',
    statement='After every sequence of inserts, removals, takes, moves and reordering, a linked list (unsorted, sorted or circular) is exactly the sequence those operations describe: walking it forward gives the elements in order, walking it backward gives the reverse, first, last, length, find and count agree with it, a sorted list is in order, and a circular one is closed and empty when its last element goes. Merging and duplicating give the elements of both or a copy with the same order. Every value is copied, handed over or released exactly once, and a queue holds each member at most once, in order.',
    quant='all operation histories, list lengths, values, positions and list kinds',
    why='Link repair depends on where in the list the element is and on what was done before; the tests build a few short lists.',
    files=['base/list/m_llist.c', 'base/data/m_queue.c'],
    mech=[('link and unlink', 'base/list/m_llist.c'), ('skip list levels', 'base/list/m_llist.c'), ('removal while iterating', 'base/list/m_llist.c'), ('queue over list and hashtable', 'base/data/m_queue.c')],
    note='Insert (all four), remove, take, set_first, set_last, move_before and move_after of unsorted and circular lists: proved for every length and position (neighbourhood argument: only the nodes an operation follows and one arbitrary pair exist, any other link is a pointer nobody may follow). Sorted (skip) lists, find, count, remove_val, remove_duplicates, merge, duplicate and queues: coverage-guided native run against the model.')
