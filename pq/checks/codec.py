"""what the external compression libraries are asked to do"""
import re
from ..core import Event, mk, agg, ok, err, num, some, NONE, RES

STD = ('core', 'alloc', 'std')
ROOTS = ('snap', 'flate2', 'brotli', 'brotli_decompressor', 'lz4', 'lz4_flex', 'zstd', 'zstd_safe', 'zstd_sys', 'lz4_sys')


def classify(P, c):
    """(codec, direction) of a call into a compression library, or None"""
    names = [c.path]
    if c.path.split('::')[0].strip('<&') in STD or c.decl.split('::')[0] in STD:
        # a std function or trait method on one of the library's types
        t = P.tys(c.argtys[0]) if c.argtys else ''
        if c.decl.split('::')[-1] in ('copy', 'read_exact', 'read', 'read_to_end', 'write_all', 'write', 'flush'):
            names = [P.tys(t) for t in c.argtys]
        else:
            return None
    s = ' '.join(names)
    m = [r for r in ROOTS if re.search(r'(^|[^A-Za-z_0-9])%s::' % r, s)]
    if not m:
        return None
    low = s
    if 'CompressorWriter' in low or 'CompressorReader' in low or 'Encoder' in low:
        d = 'enc'
    elif 'Decompressor' in low or 'Decoder' in low or 'ecompress' in low:
        d = 'dec'
    elif 'compress' in low.lower():
        d = 'enc'
    else:
        return None
    r = m[0]
    last = c.path.split('::')[-1]
    if r == 'snap':
        if last in ('max_compress_len', 'decompress_len'):
            return None
        k = 'snappy-frame' if 'Frame' in low else 'snappy'
    elif r == 'flate2':
        if 'Gz' not in low and 'Zlib' not in low and 'Deflate' not in low:
            return None
        k = 'gzip' if 'Gz' in low else ('zlib' if 'Zlib' in low else 'deflate')
    elif r.startswith('brotli'):
        k = 'brotli'
    elif r.startswith('zstd'):
        k = 'zstd'
    else:
        if last in ('compress_bound', 'get_maximum_output_size'):
            return None
        k = 'lz4' if 'block' in c.path else 'lz4-frame'
        if 'prepend' in last:
            k = 'lz4-prefixed'
        if 'dict' in last:
            k = 'lz4-dictionary'
        if r == 'lz4' and k == 'lz4':
            if d == 'enc' and not (len(c.args) > 2 and c.args[2].op == 'int' and c.args[2].a[0] == 0):
                k = 'lz4-prefixed'
            if d == 'dec' and not (c.args[1].op == 'agg' and c.args[1].a[1] == 1):
                k = 'lz4-prefixed'
    return k, d


class Client:
    """marks every path with the codec operations it performed and the buffers they had"""

    def on_call(self, E, st, c):
        k = classify(E.P, c)
        if k is not None:
            st.mon = tuple(sorted(set(st.mon) | {k + (c.path.split('::')[-1],)}))
            c.ev.append(Event('codec', (k, c.path, tuple(E.norm(st, a) for a in c.args)), st, c.fr, c.line))
        return None
