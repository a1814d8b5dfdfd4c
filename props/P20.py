from vflib import Unit
UNITS = []
def NAT(e, f, s): UNITS.append(Unit(e + '_n', 'P20.c', e, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, seconds=s, fuzz_len=300, libs=('base', 'formats')))
NAT('round', ['M_json_write', 'M_json_read'], 12)
NAT('rd', ['M_json_read'], 12)
K = dict(native=False, solver='cadical', level='bounded')
for n, d, b in ((2, [], 'every text of up to two bytes'), (3, [], 'every text of up to three bytes'), (4, ['-DLEAD=0xF0'], 'every text of four bytes that starts a four byte character')): UNITS.append(Unit('write_text_%d' % n, 'P20u.c', 'wr', defines=['-DWR', '-DN=%d' % n] + d, funcs=['M_json_write_node_string'], unwind=7, bound=b, **K))
UNITS.append(Unit('write_int', 'P20u.c', 'num', defines=['-DWR'], funcs=['M_json_write_node_integer'], unwind=8, native=False, solver='cadical'))
for n in (1, 2, 3, 4, 7): UNITS.append(Unit('read_text_%d' % n, 'P20u.c', 'rd', defines=['-DRD', '-DN=%d' % n], funcs=['M_json_read_string'], unwind=n + 3, bound='every text of %d bytes' % n, **K))
UNITS.append(Unit('read_text_13', 'P20u.c', 'rd', defines=['-DRD', '-DN=13'], funcs=['M_json_read_string'], unwind=16, timeout=1500, quick=False, bound='every text of up to 13 bytes (a surrogate pair and its quote)', **K))
META = dict(
    title='JSON that is written is valid and reads back as the same values',
    statement='M_json_write of any tree of objects, arrays, valid UTF-8 texts, integers, decimals, booleans and nulls (member names not empty), with any layout and encoding flags, gives well formed JSON, and M_json_read of it gives a tree of the same values, every text character, escape and surrogate pair included; integers beyond those of JavaScript are written in quotes unless M_JSON_WRITER_NUMBER_NOCOMPAT is given. M_json_read of any bytes stays within the data, accepts nothing with missing separators, values, quotes or brackets or with a bad escape, and gives an error when it returns NULL.',
    quant='all JSON trees, writer flags and input texts',
    why='Escapes, surrogate pairs, object keys, number limits and truncated or corrupted texts combine without bound; the tests read a few dozen documents.',
    files=['formats/json/m_json_writer.c', 'formats/json/m_json_reader.c', 'formats/json/m_json.c'],
    mech=[('escaping of text and keys', 'formats/json/m_json_writer.c'), ('escapes and separators', 'formats/json/m_json_reader.c')],
    note='Integer writing: proved. Text writing: every text of up to three bytes and every four byte character; text reading: every text of up to 7 bytes (13, with a surrogate pair, in the thorough tier), over the contracts of buffer and parser (bounded). Trees, separators and corrupted texts: native search against a strict RFC 8259 reader in the harness, relaxed for leading zeros in numbers and for vertical tab and form feed as white space, which the library reads. Comments, JSONPath and invalid UTF-8 in trees are not covered.')
