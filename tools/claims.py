"""technique and assurance per claimed property; reasons for those not claimed"""
import json, os
AI = 'abstract interpretation of the MIR of the current tree'
TRUST = 'Trusts rustc\'s MIR, the models of std and dependency functions (pq/models.py) and the interpreter (pq/core.py).'
CLAIMS = {
    'C34': (AI + ': case split on how a page and an interval overlap, inductive over the lists of pages and intervals',
            'The functions that compute the rows of pages, select pages and compute selected rows, for lists of any length. Sums that overflow usize are left to Rust; empty intervals and pages may or may not select an empty interval. ' + TRUST),
    'C18': (AI + ': case-complete evaluation of one reduction step, with the order of the two bounds tracked through every comparison',
            'Every physical type; the order is that of the stored type (signed integers, IEEE without NaN, bytes lexicographically), so unsigned and decimal logical types and NaN are outside; steps written as loops instead of folds are not followed. ' + TRUST),
    'C17': (AI + ': typestate of a page header from decoding to handing out',
            'The sequential, asynchronous and indexed page readers, for every page kind. ' + TRUST),
    'C21': (AI + ': inductive invariant of the value count (ghost counter)',
            'The sequential and asynchronous page readers and every function that makes one. Overflow of the 64-bit count is left to Rust. ' + TRUST),
    'C22': (AI + ': ghost counter of filter calls per page, per page kind',
            'The sequential and asynchronous page readers. ' + TRUST),
    'C35': (AI + ': provenance of the place that is read, the reader followed from its constructor through its calls',
            'The indexed page reader; the order in which its constructor stores the pages is not checked. ' + TRUST),
    'C13': (AI + ': evaluation of every dispatching function on every physical type (and pair of types)',
            'Statistics and column indexes: parsing, serialising, comparing, reducing; which code runs, which field comes from which, and the width checks. Values themselves are not decoded. ' + TRUST),
    'C24': ('variant-by-variant abstract evaluation of the dispatch, compared with a table', 'Every page state constructor, for both page versions, all encodings and repetitions, with and without dictionary; that the decoders it picks decode correctly is not claimed (C37). ' + TRUST),
    'C28': ('abstract interpretation with constant loops unrolled; bit-level dataflow of insertion against lookup', 'Bit positions are symbolic functions of the hash; the reader of bloom filters is checked for offsets and lengths. Collisions and the hash function itself are trusted (xxhash). ' + TRUST),
    'C29': ('induction over the schema recursion: abstract interpretation of one level with the recursive call as hypothesis', 'Schema trees of any shape; levels stay below i16::MAX is assumed. ' + TRUST),
    'C02': ('call-graph cycle analysis on resolved MIR, with abstract unrolling of the cycles found',
            'Covers every function of the crate and every instance it reaches under the full feature set; calls through dyn objects of std traits are not followed. ' + TRUST),
    'C04': (AI + ': path-sensitive typestate of short reads',
            'Every bounded read reachable from a public entry point; assumes a reader returns at most the bytes asked for. ' + TRUST),
    'C10': (AI + ': path-sensitive error-propagation typestate, modular per function',
            'Every function, closure and async body that can see a Result. ' + TRUST),
    'C11': (AI + ': variant-by-variant evaluation of every conversion against the specification\'s code tables',
            'All variants and codes, plus a symbolic code for all the others. ' + TRUST),
    'C14': (AI + ': which library algorithm each codec reaches, per feature set',
            'Every codec in both directions under three feature sets; that the library\'s encoder and decoder of one algorithm are inverse is assumed. ' + TRUST),
    'C15': (AI + ': linear invariants over the number of bytes produced',
            'All codecs under two feature sets; assumes codecs report the bytes they wrote truthfully. ' + TRUST),
    'C16': (AI + ': value flow of page slices',
            'All page kinds in both directions. ' + TRUST),
    'C25': ('auto-trait queries to the type checker for every public type and future, and scans of the syntax tree for unsafe code and of the items for global state',
            'Every type, trait and async function of the crate under the full feature set; generic parameters are assumed Send and Sync. Trusts rustc\'s trait solver.'),
    'C26': ('effect query over all resolved calls (byte-order functions, reversals) and ' + AI + ' for the native-type conversions',
            'Every function of the crate; values assembled by hand from single bytes with shifts are not recognised. ' + TRUST),
    'C33': ('effect analysis over all resolved calls, and ' + AI + ': taint of hash-collection order',
            'Every function of the crate under two feature sets; the codecs and the thrift library are trusted to be deterministic. ' + TRUST),
    'C30': (AI + ': evaluation of every name-to-value function below the parser on every name',
            'Every name of the specification, every string constant of the parser and one unknown name; the tokenizer and the grammar itself are not claimed. ' + TRUST),
    'C31': (AI + ': evaluation of the sort-order table on every annotation',
            'Every combination of physical, converted and logical type. ' + TRUST),
    'C32': (AI + ': evaluation of the constructor of primitive types on every combination of annotations',
            'Every combination of physical type and annotation; numeric payloads symbolic, the decimal limits as formulas. ' + TRUST),
    'C07': (AI + ': linear equalities between the bytes given to the output and the sizes and offsets reported',
            'Every function of the write path, sync and async, composed through per-function summaries; the thrift serialiser is trusted to report what it writes, and callers to stop at a failed call. ' + TRUST),
    'C09': (AI + ': typestate of the file writers over every history of calls (inductive over the writer\'s flags and counters)',
            'Both file writers, every sequence of new, write and end whose calls succeed, up to the first one after end. ' + TRUST),
    'C27': (AI + ': linear positions relative to the end of the file, and the exact bytes around the metadata',
            'All metadata writers and readers of the public interface. ' + TRUST),
    'C08': (AI + ': ghost sums over the lists of pages and chunks, and provenance of every recorded field',
            'Page, chunk and row-group writers, sync and async, for lists of any length. ' + TRUST),
    'C36': (AI + ': induction over the columns of a row group with ghost counters',
            'Both row-group writers, for any number of columns. ' + TRUST),
    'C19': (AI + ': per-element contents and lengths of the lists of the column index, as ghost relations to the page list',
            'The column-index serialiser for every list of pages. ' + TRUST),
    'C20': (AI + ': per-element contents of the offset index and ghost sums over the page list',
            'The offset-index serialiser for every list of pages. ' + TRUST),
    'C12': (AI + ': provenance of every field of every conversion, under all combinations of present and absent optional inputs; ghost induction over schema trees',
            'All conversions of file, row-group, chunk and schema descriptors, for lists and trees of any size; field ids and annotations of the root of a schema have no counterpart and are outside. ' + TRUST),
    'C23': (AI + ': contents of scratch buffers at every append and overwrite',
            'Every reading entry point and every call of the byte codecs; assumes codecs overwrite what they are asked to fill. ' + TRUST),
}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    NA[json.loads(l)['id']] = 'check not built yet'
NA['C01'] = 'Whether an index, slice or division in the decoders panics depends on numbers that come out of bit shuffles and data-dependent loops over the input; the linear domain used here decides almost none of these sites, and several are genuine defects whose repair changes many decoders (DESIGN.md, section 6). The type-code, length and level checks in front of the decoders are claimed separately (C04, C15, C17, C24, C27).'
NA['C03'] = 'The sizes of most allocations are related to the available data only through run-time contents (runs, offsets and counts decoded on the way); no sound static argument in reach bounds them all.'
NA['C05'] = 'Equality of two programs over all inputs is a relation between their runs. What the two readers have to do is claimed for each of them separately (C04, C17, C21, C22, C23, C27).'
NA['C06'] = 'Equality of two programs over all inputs is a relation between their runs. What the two writers have to do is claimed for each of them separately (C07, C08, C09, C27, C36).'
NA['C37'] = 'Equality of the decoded with the encoded values quantifies over the contents of run-time buffers across data-dependent loops and bit shuffles; no sound static argument in reach bounds them.'
NA['C38'] = 'End-to-end equality of values through codecs, thrift and the file layout is a relation between run-time buffer contents; the structural parts of it are claimed separately (C05-C08, C11-C17, C19, C20, C26, C27).'
NA['C39'] = 'The values a selection yields depend on run-time run lengths and interval positions inside data-dependent loops; no sound static argument in reach bounds them.'
