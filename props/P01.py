from vflib import Unit
FN = {64: ['M_base64_encode', 'M_base64_decode', 'M_base64_encode_size', 'M_base64_decode_size'], 32: ['M_base32_encode', 'M_base32_decode', 'M_base32_encode_size', 'M_base32_decode_size'], 16: ['M_hex_encode', 'M_hex_decode', 'M_hex_target_size']}
DISP = ['M_bincodec_encode', 'M_bincodec_decode', 'M_bincodec_encode_size', 'M_bincodec_decode_size']
UNITS = []
GRP = {16: 2, 64: 4, 32: 8}
def U(name, entry, bound, f, d, unwind, **k):
    UNITS.append(Unit(name, 'P01.c', entry, level='bounded', bound=bound, funcs=f, defines=d, unwind=unwind, **k))
def add(codec, n, w, wrapmax, ms, uset):
    f = FN[codec] + DISP
    d = ['-DCODEC=%d' % codec, '-DN=%d' % n, '-DW=%d' % wrapmax]
    for e in ('encode', 'encode_small'):
        U('%s_%d' % (e, codec), e, 'data <= %d bytes, wrap <= %d' % (n, wrapmax), f, d, w)
    for m in ms:
        U('decode_%d_%d' % (codec, m), 'dec%d' % m, 'any text of %d bytes' % m, f, d, m + 2, unwindset=[x % (m // GRP[codec] + 2) for x in uset])
    U('decsmall_%d' % codec, 'decsmall', 'any text of one or two groups, any smaller buffer', f, d, 2 * GRP[codec] + 2, unwindset=[x % 4 for x in uset])
add(16, 4, 18, 9, range(1, 9), ()); add(64, 5, 20, 9, range(1, 10), ['M_base64_decode.1:%d']); add(32, 6, 36, 17, range(1, 9), [])
for c in (16, 64, 32):
    for w in (0, 64):
        if c != 16 and w: continue
        UNITS.append(Unit('encode_u_%d_w%d' % (c, w), 'P01u.c', 'encode_u', kind='dfcc', defines=['-DCODEC=%d' % c, '-DWRAP=%d' % w, '-DENC'], funcs=FN[c][:1], unwind=10, solver='cadical',
                          preunwind=['M_base32_encode.0:6', 'M_base32_encode.1:9'] if c == 32 else (), timeout=400))

F = DISP + ['M_bincodec_encode_alloc', 'M_bincodec_decode_alloc', 'M_bincodec_convert', 'M_bincodec_convert_alloc']
U('alloc_16', 'alloc', 'data <= 2 bytes, no wrap', F + FN[16], ['-DCODEC=16', '-DN=2'], 14)
U('alloc_64', 'alloc', 'data of 1 byte, no wrap', F + FN[64], ['-DCODEC=64', '-DN=1'], 14)
U('alloc_32', 'alloc', 'data of 1 byte, no wrap', F + FN[32], ['-DCODEC=32', '-DN=1'], 14, quick=False)
U('auto', 'autodetect', 'data of 1 byte', F + FN[64], ['-DCODEC=64', '-DN=1'], 14)

META = dict(
    title='Binary/text codecs are exact and inverse, and stay inside their buffers',
    statement='For every byte string and every line width, encoding to hex, base64 or base32 writes exactly the standard text (padding included) with a line break after every full line and none at the end, in no more room than the advertised encode size, NUL terminated when there is room; a smaller buffer is refused. Decoding accepts exactly whitespace-tolerant well-formed text, yields exactly the bytes that text denotes (so it inverts encoding) and refuses malformed text. No input text, length or buffer size makes either direction read or write outside the memory it was given.',
    quant='all byte strings, all texts (also malformed), all wrap widths and all output buffer sizes',
    why='check_bincodec feeds a handful of fixed strings per codec; lengths modulo the group size, line widths, malformed padding, interior whitespace and short buffers form an input space tests only sample.',
    files=['base/bincodec/m_hex.c', 'base/bincodec/m_base64.c', 'base/bincodec/m_base32.c', 'base/bincodec/m_bincodec.c'],
    mech=[('group loops and size formulas of each codec', 'base/bincodec/m_base64.c, m_base32.c, m_hex.c'), ('codec dispatch and allocation', 'base/bincodec/m_bincodec.c')],
    note='Encoding (hex wrap 0/64, base64 wrap 0, base32 wrap 0) is proved for data of any length up to 2^32 by loop contracts at an arbitrary output position; other wrap widths, decoding and the allocating front ends are bounded units (lengths stated per unit in the evidence). Trusted: allocator model, CBMC.')
