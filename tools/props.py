"""The properties, as published in properties.jsonl."""
A = 'codecs/src/aper/'
DEC, ENC, MOD = A + 'decode/mod.rs', A + 'encode/mod.rs', A + 'mod.rs'
DI, EI, DC = A + 'decode/decode_internal.rs', A + 'encode/encode_internal.rs', A + 'decode/decode_charstrings.rs'
PROPS = []


def prop(id, title, statement, quant, tests, files, mech, observe, over=('inputs',), na=''):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, tests=tests, files=files, mech=mech, observe=observe, over=list(over), na=na))


prop('C01', 'Decoding never panics: any octets give a value or an error',
     'Whatever octets a peer sends, and whatever the constraints of the type being decoded, every APER decode function returns a value or an error: it never panics, '
     'never overflows and never reads outside the buffer.',
     'every buffer content, every read position in it, every type kind with every constraint',
     'The tests decode a few well-formed messages; a panic needs a malformed length, padding or width that nobody thought of.',
     [DEC, DI, DC, MOD], [('range checks before slicing', DI), ('checked cursor', MOD)], ['return value of asn1_codecs::aper::decode::*'])
prop('C02', 'INTEGER values survive encoding and decoding',
     'Decoding what was encoded for an INTEGER, with the same constraint, gives back the same value and not the extension flag, and leaves the cursor exactly behind it, '
     'at whatever bit offset it was written. It holds for unconstrained, semi-constrained and constrained integers, extensible or not, of any width.',
     'every value, lower bound, upper bound, extension marker and bit offset',
     'Tests use a handful of small values; sign, octet count and range-boundary errors appear only at particular values of particular ranges.',
     [ENC, EI, DEC, DI], [('encode_integer', ENC), ('decode_integer', DEC)], ['encode_integer, decode_integer'])
prop('C03', 'INTEGER encodings are exactly those of X.691 ALIGNED',
     'The bits written for an INTEGER are exactly those X.691 (ALIGNED variant) prescribes for its constraint: minimal field width, alignment where required, minimal number of octets, '
     'correct length field and extension bit. Peers with other implementations depend on it.',
     'every value, lower bound, upper bound, extension marker and bit offset',
     'A round trip through one implementation cannot see a mistake made in both directions, and fixed test vectors cover a few points.',
     [ENC, EI], [('encode_integer', ENC), ('encode_constrained_whole_number', EI)], ['AperCodecData::into_bytes after encode_integer'])
prop('C04', 'Constraints are enforced in both directions',
     'A value or length outside its non-extensible constraint is rejected with an error when encoding, and one inside is accepted; no decode function ever returns, as a root value, '
     'an integer or a string length outside the given bounds.',
     'every value, length and constraint; every input buffer',
     'Needs the values just outside each bound of each kind of constraint, in both directions.',
     [ENC, EI, DEC, DI, DC], [('bound checks', EI), ('bound checks when decoding', DI)], ['result of encode_* and decode_*'])
prop('C05', 'Length determinants follow X.691 and are read back',
     'The length determinant of a string or list is written in the form X.691 clause 11.9 prescribes for its size bounds (constrained field, one octet below 128, two octets below 16K, normally small), '
     'and reading it gives the same length back. A length that would need fragmentation is an error, never a wrong length.',
     'every length and every pair of size bounds, every bit offset',
     'The form changes at 64, 128, 256, 16K and 64K; tests only use short strings.',
     [ENC, EI, DEC, DI], [('encode_length_determinent', ENC), ('decode_length_determinent', DEC)], ['encode_length_determinent, decode_length_determinent'])
prop('C06', 'OCTET STRING encoding and decoding follow X.691',
     'An OCTET STRING is written exactly as X.691 clause 17 prescribes for its size constraint, aligned exactly when required and never truncated, '
     'and decoding returns the same octets with the cursor behind them.',
     'every content, length, size constraint and bit offset',
     'Alignment depends on the size bounds and the current bit offset; tests use one or two combinations.',
     [ENC, EI, DEC, DI], [('encode_octetstring', ENC), ('decode_octetstring', DEC)], ['encode_octetstring, decode_octetstring'])
prop('C07', 'BIT STRING encoding and decoding follow X.691',
     'A BIT STRING is written exactly as X.691 clause 16 prescribes for its size constraint, bit for bit and aligned exactly when required, and decoding returns the same bits in the same number with the cursor behind them.',
     'every content, length, size constraint and bit offset',
     'As for octet strings; sizes that are not multiples of 8 and sizes around 16 bits matter.',
     [ENC, EI, DEC, DI], [('encode_bitstring', ENC), ('decode_bitstring', DEC)], ['encode_bitstring, decode_bitstring'])
prop('C08', 'Character strings are encoded, decoded and validated correctly',
     'VisibleString, PrintableString and UTF8String are written as X.691 clause 30 prescribes (characters as octets, aligned when required), decoding returns the same characters with the cursor behind them, '
     'and octets that are not UTF-8 are rejected with an error.',
     'every string within a length bound, every size constraint and bit offset, every octet content when decoding',
     'Alignment of known-multiplier strings differs from that of octet strings; tests have few strings.',
     [ENC, EI, DC], [('encode_*_string', ENC), ('decode_*_string', DC)], ['encode/decode of the three string types'])
prop('C09', 'BOOLEAN, ENUMERATED, CHOICE indices and SEQUENCE preambles follow X.691',
     'Booleans, enumeration indices, choice indices and sequence preambles (extension bit and presence bitmap) are written exactly as X.691 prescribes and read back unchanged, with the cursor behind them; an extension '
     'addition is reported as such with its index.',
     'every value, number of alternatives, bitmap, extension marker and bit offset',
     'Width changes at powers of two and at 255/256 alternatives; extension additions are rare in captured messages.',
     [ENC, EI, DEC, DI], [('encode_enumerated, encode_choice_idx, encode_sequence_header', ENC), ('decode counterparts', DEC)], ['those functions'])
prop('C10', 'Truncated messages are rejected',
     'Decoding from a buffer that ends before the encoding does is an error: a decoder never completes a cut-off message with invented bits, and never rejects a complete one.',
     'every value of every basic type, every cut position within the bounds',
     'Needs every cut position of every form of encoding.',
     [DEC, DI, DC, MOD], [('decode_bits_as_integer and slices check the remaining length', MOD)], ['result of decode_*'])
prop('C11', 'Encodings are self-delimiting',
     'Items of any kinds written one after another into one buffer are read back one after another, each with its own value; what follows an item never changes how it is decoded.',
     'every combination of values of the sequences checked, every buffer suffix',
     'Alignment and cursor errors show only for combinations of an item, its bit offset and its successor.',
     [ENC, EI, DEC, DI, MOD], [('cursor', MOD)], ['encode_* then decode_* on one AperCodecData'])
prop('C12', 'Encoding only appends; decoding does not alter the buffer',
     'Encoding a further item leaves every bit already in the buffer as it was, and decoding an item leaves the contents of the buffer as they were.',
     'every prefix content and length, every value of every basic type',
     'Tests start from empty buffers and look only at the decoded value.',
     [ENC, EI, DEC, DI, MOD], [('append_bits, append_aligned', MOD)], ['AperCodecData::into_bytes before and after'])
prop('C13', 'The codec buffer behaves as a bit string with a cursor',
     'What is given to from_slice comes back from into_bytes and get_inner; bits are read in order, most significant first; aligning moves to the next octet boundary; length_in_bytes counts whole octets (at least one); '
     'appending an open type aligns and pads it, taking one returns exactly its octets; the key is the one set last.',
     'every buffer content, length, position and key',
     'Tests use the buffer only through whole messages.',
     [MOD], [('AperCodecData', MOD)], ['AperCodecData methods'])
DRV = ['codecs_derive/src/aper/%s.rs' % f for f in 'seq choice open seqof integer enumerated octetstring bitstring charstring boolean null mod'.split()]
D = 'codecs_derive/src/aper/'
prop('D01', 'Derived SEQUENCE codecs write and read every combination of components',
     'A type with derived SEQUENCE codec writes its preamble and then each component, in order, exactly as X.691 clause 19 prescribes; decoding gives the same components, '
     'absent OPTIONAL ones as absent, also when nested; extension additions a later version sent are skipped; a component that is invalid fails the whole sequence, in both directions.',
     'every combination of presence and component values, every encoding of the types checked',
     'The number of combinations of presence, bit offset and nesting is far beyond a handful of captured messages.',
     [D + 'seq.rs', DEC, ENC], [('generate_aper_codec_for_asn_sequence', D + 'seq.rs'), ('skip_sequence_extensions', DEC)], ['AperCodec::encode and decode of derived types'])
prop('D02', 'Derived CHOICE codecs write and read the right alternative',
     'A type with derived CHOICE codec writes the index of the alternative held and then its contents; decoding gives that alternative with these contents; an index that names no known alternative, or an invalid content, is an error and never another alternative.',
     'every alternative and content, every encoding',
     'Tests use one alternative of a few types.',
     [D + 'choice.rs', DEC, ENC], [('generate_aper_codec_for_asn_choice', D + 'choice.rs')], ['AperCodec::encode and decode of derived types'])
prop('D03', 'Derived open types are delimited, padded and selected by their key',
     'An open type in a message is written as a length in octets and the contents padded to whole octets, and decoded as the type its key field selects, even after items with other keys; exactly its octets are consumed, '
     'so that trailing octets a later version may add are skipped and contents are never read past the length; an unknown key, a missing key or an invalid content is an error.',
     'every key, content, length and padding within the bounds',
     'Depends on the interplay of key, length, contents and what surrounds them; captured messages have consistent ones only.',
     [D + 'open.rs', D + 'seq.rs', MOD], [('generate_aper_codec_for_asn_open_type', D + 'open.rs'), ('take_open_type, append_aligned, set_key', MOD)], ['AperCodec::encode and decode of derived types'])
prop('D04', 'Derived SEQUENCE OF codecs keep number, order and size constraint',
     'A type with derived SEQUENCE OF codec writes the number of its elements as its size constraint prescribes and then the elements in order; decoding gives the same elements; '
     'lists outside the size constraint and invalid elements are errors, never shortened lists.',
     'every list within the bounds, every encoding',
     'Tests have lists of one or two elements.',
     [D + 'seqof.rs', ENC, DEC], [('generate_aper_codec_for_asn_sequence_of', D + 'seqof.rs')], ['AperCodec::encode and decode of derived types'])
prop('D05', 'Derived codecs of simple types apply the constraint of their attributes',
     'A newtype with derived INTEGER, ENUMERATED, BOOLEAN, NULL, OCTET STRING, BIT STRING or character string codec encodes and decodes exactly as the codec functions do for the bounds and extension markers of its attributes; '
     'a decoded number that does not fit the Rust type is an error, never another number, and an extension addition is never mistaken for a root value.',
     'every value and every encoding within the bounds',
     'Narrowing shows only for values that do not fit, swapped or dropped attributes only for values near a bound.',
     DRV[4:11] + ['codecs_derive/src/utils.rs', 'codecs_derive/src/attrs.rs'], [('generate_aper_codec_for_asn_integer', D + 'integer.rs'), ('bounds from attributes', 'codecs_derive/src/utils.rs')], ['AperCodec::encode and decode of derived types'])

G = 'asn-compiler/src/'
RC = G + 'resolver/asn/types/'
prop('G01', 'Value sets of constraints: bounds, intersection, Rust type that holds them',
     'For every set of values a constraint of an INTEGER allows (ranges, single values, unions and intersections of them, constraints applied one after another), the compiler takes its least and greatest elements as the lower and upper bound, '
     'intersects value by value, keeps the extension marker of the last constraint, and chooses a Rust integer type (width and sign) that holds every value of the set.',
     'every value set within the bounds',
     'An off-by-one in a width or bound shows at powers of two and at signs only; the tests have a handful of ranges.',
     [G + 'resolver/asn/structs/types/constraints.rs', RC + 'base/integer.rs', RC + 'constraints.rs'],
     [('ConstraintValues::min, max, append, intersection', G + 'resolver/asn/structs/types/constraints.rs'), ('bit width and signedness', RC + 'base/integer.rs')],
     ['lb, ub attributes and integer width of generated types'])
GEN = [G + 'generator/asn/types/base/integer.rs', G + 'generator/asn/types/constraints.rs']
prop('G02', 'Code generated for simple types implements their ASN.1 definition',
     'For INTEGER, ENUMERATED, BOOLEAN, NULL, OCTET STRING, BIT STRING and character string definitions with named and literal bounds, exclusive bounds, unions, intersections, serial constraints, extension markers, size constraints, constrained and chained references, '
     'and imported values and types, the generated type holds every value of the definition, encodes and decodes it exactly as X.691 prescribes for that definition, rejects values outside a constraint without extension marker, and names the enumerations with their X.691 indices.',
     'every value of every simple type of the schemas',
     'The tests of the compiler compare tokens or only see that it runs; a wrong bound, width or index is visible only in encodings of particular values.',
     GEN + [RC + 'constraints.rs', RC + 'int.rs', RC + 'base/enumerated.rs', G + 'generator/asn/types/base/enumerated.rs', G + 'parser/asn/types/constraints.rs'],
     [('resolve_type, get_integer_valueset', RC + 'int.rs'), ('attributes from constraints', G + 'generator/asn/types/constraints.rs'), ('enumeration indices', RC + 'base/enumerated.rs')],
     ['encode and decode of the types in code generated by hampi-asn1c'])
prop('G03', 'Code generated for SEQUENCE, CHOICE and SEQUENCE OF implements their definition',
     'The generated code of a SEQUENCE has its root components, in order, with a presence bit for each OPTIONAL or DEFAULT one and an extension bit if there is a marker; components between the markers are additions and not part of the root, components behind the second marker are; '
     'a CHOICE has its alternatives with the indices of the definition and additions apart; a SEQUENCE OF its size constraint and element type; types defined inside others are generated with their own constraints. '
     'Every value is encoded and decoded exactly as X.691 prescribes for the definition.',
     'every value of every constructed type of the schemas',
     'The order and presence of components is visible only in the encodings of values that have them; the tests of the compiler do not look at encodings.',
     [RC + 'constructed.rs', G + 'parser/asn/types/constructed/seq.rs', G + 'generator/asn/types/constructed/seq.rs', G + 'generator/asn/types/constructed/choice.rs', G + 'generator/asn/types/constructed/seqof.rs'],
     [('resolve_sequence_type', RC + 'constructed.rs'), ('parse_sequence_type', G + 'parser/asn/types/constructed/seq.rs')],
     ['encode and decode of the types in code generated by hampi-asn1c'])
prop('G04', 'Code generated for containers of information objects follows the object set',
     'A parameterized container over an object set generates fields whose id selects the open type of the object with that id: each object of the set is encoded with its own id and type and decoded as that type and no other, '
     'ids (also those above 255, given by name in another module) are those of the objects, and an id outside the set never selects an alternative.',
     'every id and content within the bounds',
     'A wrong association of id and type, or an id cut to 8 bits, shows only for messages with that particular field.',
     [RC + 'ioc.rs', RC + 'constructed.rs', G + 'generator/asn/types/constructed/seq.rs', G + 'parser/asn/types/ioc.rs'],
     [('resolve_seq_components_for_objects', RC + 'constructed.rs'), ('object set resolution', RC + 'ioc.rs')],
     ['encode and decode of the types in code generated by hampi-asn1c'])
