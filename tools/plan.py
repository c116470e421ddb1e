"""What each check encodes and within which bounds."""
import gen

LEVEL = 'other'

COMMON = [
    'bitvec, which hampi uses as its bit buffer, is replaced by a model of the part of its API hampi can use (models/bitvec): a '
    'bit vector of up to 256 bits (512 in some thorough runs) held in machine words, with bitvec\'s semantics and panics; growing beyond '
    'that capacity is reported as no answer, never as success.',
    'Stubs: alloc::fmt::format returns an empty string, AperCodecError::new an empty error (no property mentions message texts), '
    'core::str::from_utf8 is replaced by the Unicode well-formedness table; log is compiled out.',
    'Allocation succeeds. Arithmetic overflow, which the dev profile turns into a panic, counts as a panic.',
    'Kani\'s MIR-to-goto translation, CBMC and CaDiCaL are trusted for "holds"; a violation is reported only if it reproduces natively '
    'on the real crates (real bitvec, no stubs).',
]
PRE = 'lower bound <= upper bound; bounds and values within -2^64..2^64; size bounds not negative; read positions not beyond the end of the buffer'

PLANS = {}


def plan(pid, modules, bounds, thorough='', assumptions=(), **kw):
    d = dict(modules=modules, bounds=bounds, thorough=thorough, assumptions=list(assumptions) + [PRE], crate='harness', words=2)
    d.update(kw)
    PLANS[pid] = d


plan('C01', ['c01'],
     'Every content of buffers of 3 octets (20 octets for integers of more than 127 bits), every bit offset to start from; integer bounds: '
     'all lower bounds with every span up to 65536 values, none, semi-constrained, and the i64, u32 ranges; string sizes: unconstrained and '
     'fixed/range/large examples; length determinants: every pair of bounds below 2^32.',
     'Buffers of 5 octets; every pair of integer bounds and of size bounds below 2^32.', heavy=('length_sizes', 'octetstring_any', 'printable_string', 'visible_string', 'int_small'))
plan('C02', ['c02'],
     'Every value and every lower bound within -2^64..2^64 for unconstrained, semi-constrained and at-most-64K-value integers; larger ranges at the '
     'sizes 17, 24, 32, 40, 63, 64, 65 bits with every value; written at bit offsets 0..7 (one per query).',
     'Every pair of bounds.', heavy=('small_a',))
plan('C03', ['c03'],
     'Every value, every lower and upper bound within -2^64..2^64, with and without extension marker, at selected bit offsets, against a reference '
     'encoder written from X.691 clauses 11.4-11.9 and 13.')
plan('C04', ['c04'],
     'Encoding: every value and every pair of bounds within -2^64..2^64; every length up to 16383 against every pair of bounds below 2^32; strings up to 4 octets. '
     'Decoding: every content of 3 octets at every bit offset, every lower bound with spans of 6, 200, 1000 and 1000001 values, string size examples.',
     'Decoding: buffers of 5 octets, every pair of integer bounds.', heavy=('dec_small_6', 'dec_large_20', 'dec_small_200', 'dec_small_1000'))
plan('C05', ['c05'],
     'Encoding: every length 0..16383 with every pair of bounds (including none, and upper bounds of 64K and more), bit offsets 0..7 for the unbounded forms; lengths of 16384 up to 2^40 '
     'are an error. Decoding: every length for the unbounded, normally small and six bounded forms at every bit offset.',
     'Decoding: every pair of bounds below 65536.')
plan('C06', ['c06'],
     'Every content of up to 4 octets, every pair of size bounds up to 4 and no upper bound, with and without extension marker, every bit offset (encoding); '
     'fixed, ranged, unbounded and >64K size constraints (decoding); against the reference encoder.',
     'Up to 8 octets; decoding with every pair of size bounds.', heavy=('enc_sym', 'dec_fix3', 'dec_any', 'dec_0_3'))
plan('C07', ['c07'],
     'Every content of up to 18 bits, every pair of size bounds up to the limit (encoding), fixed sizes around the 16-bit alignment limit, ranges with and without '
     'extension marker, unbounded and >64K bounds; every bit offset for the fixed sizes.',
     'Decoding with every pair of size bounds.')
plan('C08', ['c08'],
     'Strings of up to 3 characters; VisibleString, PrintableString: size constraints fixed (at and beyond the 16-bit alignment limit), ranged, unbounded; UTF8String with every valid UTF-8 content, and every '
     'octet content for its rejection; every bit offset when encoding.',
     'Longer strings and every pair of size bounds.')
plan('C09', ['c09'],
     'Every BOOLEAN; ENUMERATED with every largest index 0..65535 and CHOICE with every largest index 0..255 (encoding, every value), eight sizes (decoding, every value and bit offset); extension additions with every index '
     'below 65536; preambles with every presence bitmap of up to 18 components, every bit offset.')
plan('C10', ['c10'],
     'For each form of each basic type, every value and the encoding cut after 1, 2, 3 or 4 octets; buffers of up to 4 octets for open types; every padding for alignment.')
plan('C11', ['c11'],
     'Five sequences of two to six items of all basic kinds with every combination of their values; suffix independence for a 21-bit integer and an OCTET STRING over every buffer of 3 octets and every suffix.')
plan('C12', ['c12'],
     'Every value of each basic type appended to every buffer prefix of up to 2 octets; every buffer of up to 3 octets for the decoders.')
plan('C13', ['c13'],
     'Every content of up to 4 octets or 20 bits, every position within them, open types of up to 12 bits or 4 octets.')


def dplan(pid, bounds, thorough='', assumptions=(), **kw):
    plan(pid, [pid.lower()], bounds, thorough, list(assumptions) + [
        'The codecs checked are those the derive macros of /repo generate, at check time, for the types in dharness/src/types.rs, which are written in the form the compiler emits.'],
        crate='dharness', replay='dreplay', **kw)


dplan('D01', 'Every value of sequences of three components, with three OPTIONAL ones and the extension marker, and nested; every content of 3 octets against an independent parser; up to two extension additions of one octet.',
      'Up to three extension additions of two octets.', heavy=('dec_additions', 'dec_nest', 'any'))
dplan('D02', 'Every value of choices of one, two (extensible) and three alternatives, nested; every first octet.')
dplan('D03', 'Items with an 8-bit key and three alternatives (BOOLEAN, 8-bit INTEGER, NULL), an OCTET STRING of up to 3 octets, a 32-bit INTEGER; every value, up to two octets of padding; every content of 4 octets; two items one after another.', heavy=('twice', 'cut', 'dec_octets', 'any'), workers=6)
dplan('D04', 'Lists of 0 to 3 elements of 3 bits, of 2 octets, of 0 to 2 sequences, and extensible ones of up to 3 bits; every element value; every content of 2 octets against an independent parser.', 'Lists of 4 elements; decoding of lists of sequences.')
dplan('D05', 'Every value of the types: INTEGER of 3, 5 (extensible), 8, 16 and 64 bits, unconstrained, semi-constrained; ENUMERATED with and without extension; strings of up to 3 units; for decoding, every content of 4 octets compared with the codec functions.')


plan('G01', ['g01'],
     'Every value set of up to two ranges and two single values with bounds within -2^126..2^126; unions and intersections of two such sets (up to one range and one value each, intersections), serial application, with and without extension markers.',
     'Widths of sets of two ranges and two values.',
     ['The constraint sets are built directly as the resolver\'s ConstraintValues: parsing, and walking the parsed constraint tree, are outside (G02 checks them for the schemas in gschemas).',
      'Destructors and formatting of the encoded compiler code are replaced by no-ops: the former only release memory, the latter only makes error texts.'],
     crate='vharness', replay='vreplay', nodrop=True, workers=4)


def gplan(pid, bounds, **kw):
    plan(pid, [pid.lower()], bounds, '', [
        'The code checked is what hampi-asn1c of /repo generates, at check time, from gschemas/common.asn and gschemas/g.asn: the verdict holds for every value of the types of these schemas, not for every schema.',
        'Parsing, name resolution and generation run concretely on these schemas; the solver decides the generated code.'],
        crate='gharness', replay='greplay', before=gen.before(pid), **kw)


gplan('G02', 'Every value of 23 INTEGER types (plain, named bounds, exclusive bounds, unions, intersections, serial constraints, constrained and chained references, extensible, up to 64 bits), every value outside nine of them; 6 ENUMERATED types; '
      'OCTET STRING, BIT STRING and character string types of up to 4 units; encoded and decoded against the reference encoder.')
gplan('G03', 'Every value of 15 constructed types: SEQUENCE (OPTIONAL, DEFAULT, extension additions, second extension marker, empty, nested, constrained components), CHOICE (extensible, additions, nested), SEQUENCE OF up to 3 elements (encoding; decoding for simple elements).')
gplan('G04', 'One field of each of three objects (INTEGER ids over 256, BOOLEAN, INTEGER and OCTET STRING values): every content, encoding and decoding; messages of up to two fields (encoding); every id outside the object set (decoding).')
