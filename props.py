"""Properties, their drivers/rules, and the texts from which properties.jsonl and MANIFEST.json are generated (gen.py)."""
ASSUME = ['clang 18 at -O0 -std=c++17 translates the sources to LLVM IR faithfully; target x86-64 little-endian',
          'the analyser (cx/) and its models of libc externals are correct', 'memory objects are disjoint and allocations are as large as requested']
TECH = 'static analysis: abstract interpretation of LLVM IR (bit-level + linear domain, trace partitioning over exhaustive input classes)'
NOTE = ('Every obligation is decided over all values of each input class by an abstract interpreter on the IR of the current source; nothing is executed. '
        'Trusts clang, the analyser and its libc models. ')
PROPS = {}
def P(id, title, statement, over, qtext, why, files, mech, drivers=None, rules=None, explanation='', note='', assume=None, **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, drivers=drivers or [], rules=rules or [],
                     explanation=explanation, note=note, assume=assume or [], **kw)
def M(name, where): return dict(name=name, where=where)

P('B01', 'Buffer transfers stay in bounds, move exact bytes, or change nothing',
  'For every buffer capacity and every cursor within it, writing or reading an 8, 16, 32 or 64-bit number or a byte string of any length (including lengths near the top of the address space) either transfers exactly that many octets at the cursor, numbers least significant octet first, advances the cursor by that count and reports it, or, when fewer octets remain, reports zero and leaves the buffer contents, the cursor and the destination unchanged. '
  'No transfer touches memory outside the buffer or any octet other than its own. Seeking, resetting, querying the cursor and the remaining region, and creating (zero-filled) and destroying buffers behave accordingly.',
  ['inputs'], 'all capacities and cursors up to 2^40, all values, all 64-bit transfer lengths',
  'The tests transfer a few values in a fixed buffer; they never hit the end of a buffer at every distance, nor lengths that wrap.',
  ['include/crefl/buf.h', 'src/buf.cc'], [M('capacity checks', 'include/crefl/buf.h'), M('buffer allocation', 'src/buf.cc')],
  drivers=['b01'], explanation='Drivers build a buffer of symbolic capacity and cursor over a region of exactly that capacity and call every transfer; the domain proves result, cursor, octet placement, frame (a witness index anywhere in the buffer) and bounds for all of them.')
P('B02', 'Bit-scan and byte-order helpers are right for every operand',
  'For every 32 and 64-bit operand, including zero, leading-zero and trailing-zero counts give the number of such zeros (the operand width for zero) and the population count gives the number of set bits, with the generic forms selecting the width of their argument type. '
  'For every 16, 32 and 64-bit value the big-endian and little-endian conversions yield a representation whose octets are stored most, respectively least, significant first, and converting back restores the value.',
  ['inputs'], 'all 32-bit and 64-bit operands', 'The codecs and hash maps rely on these for all operands; tests evaluate a handful.',
  ['include/crefl/bits.h', 'include/crefl/endian.h'], [M('clz/ctz/popcnt', 'include/crefl/bits.h'), M('be*/le*', 'include/crefl/endian.h')],
  drivers=['b02'], explanation='One input class per position of the highest / lowest set bit; remaining bits unknown. Includes the undefined-at-zero rule for the compiler bit-scan primitives.')
P('C01', 'BER identifier and length octets are canonical and round-trip',
  'For every class, primitive/constructed flag and tag number below 2^56, and for every 64-bit length, the encoder writes exactly the number of octets its length query announces, in the minimal X.690 form (low or high tag number, short or long length, most significant group first), into a buffer of exactly that size. '
  'Reading those octets back yields the same class, flag, number or length and consumes exactly the octets written.',
  ['inputs'], 'all classes, flags, 56-bit tag numbers and 64-bit lengths', 'Tests sample a few tags and lengths; class bits and long tags at each group boundary are not covered.',
  ['src/asn1.cc', 'include/crefl/asn1.h', 'include/crefl/buf.h'], [M('tag/identifier/length codec', 'src/asn1.cc')],
  drivers=['c01'], explanation='One class per bit length of the tag number / length; remaining bits, class and flag unknown. Octets are compared with a reference layout written from X.690.')
ASN = ['src/asn1.cc', 'include/crefl/asn1.h', 'include/crefl/buf.h']
P('C02', 'Integers are minimal, correctly signed, and round-trip in both byte orders',
  'For every unsigned and signed 64-bit value, in the big-endian and the little-endian content form and through the pointer and the by-value functions, the announced length is the minimal one (at least one octet; signed forms keep a sign bit), the writer fills exactly that many octets with the value in two\'s complement, and the reader returns the value, sign included; the tagged form adds a universal primitive header with that length. '
  'Any content of one to eight octets, minimal or not, is read as the number it denotes (zero- or sign-extended), and writing at any such length keeps the low-order octets. '
  'Content lengths of zero or above eight, and content for which the buffer has no room, are refused with cursor and buffer unchanged.',
  ['inputs'], 'all 64-bit values, all content of 1 to 8 octets, all 64-bit content lengths, all buffer shortfalls', 'Sign boundaries at each octet count, non-minimal content and refused lengths are not sampled by the tests.',
  ASN, [M('integer codec, both orders', 'src/asn1.cc')], drivers=['c02'], explanation='One class per bit length of the magnitude and sign; remaining bits unknown. All 18 integer functions are called in each class.')
P('C03', 'LEB128 and VLU integers are minimal, exact, and strictly decoded',
  'For every value below 2^56, writing LEB128 or VLU, through either form, takes exactly one octet per seven significant bits (at least one), laid out as documented, and reading returns the value and consumes exactly those octets; larger values, and values the buffer has no room for, are refused with nothing written. '
  'For any octets, both read forms accept exactly the terminated encodings of at most eight octets that lie within the buffer, and return the value they denote.',
  ['inputs'], 'all 64-bit values; all octet sequences in buffers of 0 to 9 octets', 'Tests sample values; truncated, over-long and boundary encodings are not covered.',
  ASN, [M('leb128 and vlu codec', 'src/asn1.cc')], drivers=['c03'], explanation='One class per bit length for writing; one per buffer size for reading arbitrary octets, with a reference decoder.')
P('C04', 'Reals follow X.690 and every double survives a round trip bit for bit',
  'For every finite double, including subnormals and both zeros, infinities and NaNs, through the pointer and by-value functions, the announced length equals the octets written, the content is the X.690 binary form in base 2 with an odd integral mantissa and minimal exponent and mantissa octets (special values use their one-octet codes), and reading returns the same bits (NaN as a NaN). The tagged form adds header and length. '
  'Reading any binary content of a supported size gives the double it denotes when that is representable, and refuses reserved formats, bases and out-of-range values rather than misreading them.',
  ['inputs'], 'all doubles (quick: a third of the exponents, all positions of the lowest fraction bit; thorough: every exponent); content of up to 11 octets', 'A table of sample values cannot cover every exponent, mantissa length, and the subnormal range.',
  ASN, [M('real codec', 'src/asn1.cc')], drivers=['c04'], args_quick=['--exclude', 'all_'], explanation='One class per exponent and position of the lowest set fraction bit, remaining fraction bits and sign unknown; the expected octets are computed by an X.690 reference in the driver.')
P('C05', 'Compressed floats round-trip every value and announce their own length',
  'For every 64-bit and every 32-bit floating point value, including subnormals, both zeros and infinities, the compressed float writers, pointer and by-value, write the same octets, the first of which announces how many follow, never more than ten (64-bit) or six (32-bit); both readers return the same bits (NaN as a NaN) and consume exactly those octets. '
  'A value the buffer has no room for is refused.',
  ['inputs'], 'all doubles and floats (quick: a third of the double exponents; thorough: every exponent)', 'The tests sample values; inline, exponent-less, mantissa-less and subnormal forms each have boundaries at particular exponents and trailing zero counts.',
  ASN, [M('vf8 codec', 'src/asn1.cc')], drivers=['c05'], args_quick=['--exclude', 'all_'], explanation='One class per exponent and position of the lowest set fraction bit, remaining fraction bits and sign unknown.')
P('C06', 'No octets, however malformed, make a reader leave its bounds',
  'For any octets in the buffer, any cursor, and any announced content length, every reader (headers, boolean, integers, reals, octet strings, null, object identifiers, their tagged forms, LEB128, VLU, and compressed floats) returns zero or a negative error without undefined behaviour, reads nothing outside the buffer, writes nothing outside its destination, and leaves the cursor between its start and the end of the buffer. '
  'A content reader that succeeds consumes exactly the announced length; content that extends past the end is refused. The two compressed float readers accept the same octets and return the same value for all of them.',
  ['inputs'], 'all octets in buffers of 0 to 12 octets (compressed floats: every prefix, truncation, exponent content and mantissa), all 64-bit content lengths and tags', 'Malformed input is outside the tests; it needs particular octets at particular positions.',
  ASN, [M('all readers', 'src/asn1.cc')], drivers=['c06'], args_quick=['--exclude', 'all_'], explanation='Buffer contents are unknown bits in a read-only object of exactly the buffer size; lengths that could fit are enumerated, all others are one class. Bounds, shift amounts, initialisation and results are obligations.')
P('C07', 'Headers are decoded strictly, and a tagged reader checks its header',
  'From any octets, the tag number, length and identifier readers accept exactly the complete encodings of at most eight continuation octets (no indefinite or longer lengths, no long form for tag numbers below 31) and return exactly the number, class and flag encoded; a refused number or length is reported as zero. '
  'Every tagged reader refuses any identifier other than the universal, primitive one of the requested tag, storing nothing, and otherwise behaves as the plain content reader given the announced length.',
  ['inputs'], 'all octet sequences of up to 10 octets; all tags 0 to 30; all length forms', 'The tests only read headers the library wrote.',
  ASN, [M('ident/length readers', 'src/asn1.cc'), M('der readers', 'src/asn1.cc')], drivers=['c07'], explanation='Arbitrary octets against a reference decoder in the driver; the tagged reader is compared with the content reader over every length form.')
P('C08', 'Object identifiers survive binary and text forms, and bad ones are refused',
  'For every object identifier of two to fifteen components with a valid first pair (0 or 1 followed by less than 40, or 2) and subidentifiers below 2^56, the announced length is the sum of minimal base-128 subidentifiers, those are what is written, and reading them back gives the same components; anything else is refused with nothing written. Any binary content is decoded component by component or refused. '
  'Text conversion reports its length without a buffer, never overruns a buffer, yields dot-separated decimal, and parses back to the same components; the parser accepts exactly dot-separated decimal components below 2^56, at most fifteen.',
  ['inputs'], 'identifiers of up to 15 components with one or two components of any size (others one octet); binary content of up to 8 octets; text of up to 8 arbitrary characters, digit runs up to 24', 'The tests convert one well-known identifier.',
  ASN, [M('oid codec and text', 'src/asn1.cc')], drivers=['c08'], explanation='One class per bit length, position and count of components, per digit count, and per continuation-bit pattern.')
P('C09', 'Booleans, nulls and octet strings round-trip and respect the destination',
  'A boolean is one octet, zero for false and non-zero for true, any non-zero octet reads as true, and other lengths are refused; null is empty. '
  'For every octet string length, writing copies exactly the string at the cursor and reading copies it back; a reader given less room, or no destination, stores only what fits, still consumes the content and reports its full length; content past the end of the buffer, or a string without room, is refused with everything unchanged.',
  ['inputs'], 'all string, room and buffer lengths below 2^40, all content lengths', 'Truncated destinations and lengths beyond the buffer are not tested.',
  ASN, [M('boolean/null/octets codec', 'src/asn1.cc')], drivers=['c09'], explanation='Symbolic lengths and contents; a witness index stands for any octet.')
P('S01', 'SHA-224 and SHA-256 digests follow FIPS 180-4 for every message',
  'For every message content, fed in pieces of any sizes, the SHA-224 and SHA-256 functions produce the digest FIPS 180-4 defines: each completed 64-octet block is compressed exactly once and in order from any chaining value, incomplete blocks are kept pending and never lost, overwritten or read past, the message length is counted across blocks, and finishing appends one bit, zeros and the 64-bit big-endian bit count in one or two blocks depending on how much is pending. '
  'Inputs are only read, nothing outside context and digest is written.',
  ['inputs', 'histories'], 'any block content and chaining value; every number of pending octets with update lengths around the block boundaries (quick: ten fills); any count of preceding blocks below 2^50',
  'Declaration identity rests on these digests; tests check none directly, and padding and buffering errors show only at particular fills.',
  ['src/sha256.cc', 'include/crefl/sha256.h'], [M('compression', 'src/sha256.cc'), M('update/final buffering', 'src/sha256.cc')],
  drivers=['s01'], args_quick=['--exclude', 'all_'], explanation='The code and a FIPS 180-4 reference in the driver are interpreted on the same unknown words; sums are compared as linear forms and logical functions in algebraic normal form, so equality holds for every input of the class.')
P('H01', 'The hash map is a finite map whatever its history of operations',
  'After any sequence of insertions, index accesses, erasures, clears, copies, moves and assignments (including self-assignment), on a map constructed with any power-of-two capacity, the hash map contains exactly the keys last inserted and not erased since, each once and with its latest value: lookups find present keys and no others, size counts them, iteration visits each exactly once, and equality compares contents, whatever the keys\' hash collisions. '
  'A new key reached by indexing starts at zero; slots of erased keys are reused without duplicating or losing keys; growth keeps every entry; a free slot always remains so that searches end; copies are independent, and no operation touches memory outside its table or leaks it.',
  ['histories', 'inputs'], 'every table state of capacity 1 to 8 with any keys and values, inductively (quick: a third of the operations at 8); every probe run of up to 5 slots at selected positions of tables of 32, 64 and 128 slots; growth to 64 slots; whole-table operations, copying, clearing and growth in tables of 16 to 256 slots',
  'The tests never use the map directly; tombstones, wrap-around, and growth interact only in particular histories.',
  ['include/crefl/hashmap.h'], [M('open addressing with tombstone bitmap', 'include/crefl/hashmap.h')],
  drivers=['h01'], args_quick=['--exclude', 'all_'], explanation='Induction over histories: each operation, from every well-formed table of the capacity (slot states and home slots enumerated; keys and values unknown), is shown to yield the well-formed table of the updated map, so any history from the empty map does.')
DB = ['src/db.cc', 'include/crefl/db.h']
MOD = ['src/model.cc', 'include/crefl/model.h']
P('M01', 'Loading accepts exactly the well-formed images and never leaves a bad index',
  'For any octets presented as a reflection database image, whatever the counts, names, node indices and root in them, loading reads nothing outside the image, and succeeds exactly when the image has the magic, holds the tables its header declares, terminates its name table, was written against the same builtin types, and every node\'s name, next, link and attribute index lies within the loaded tables; otherwise it reports an error. '
  'An accepted image restores each node and name in order after the builtin types, which are kept; an image cannot be loaded over existing declarations; destroying the database afterwards frees everything.',
  ['inputs'], 'all image octets for images of up to three nodes, five name octets and 40 trailing octets; all declared counts for up to 15 sizes of truncated images; images of up to 700 nodes and 66 000 name octets',
  'Tests load only images the library wrote; a corrupt count, name table or index needs specific octets.', DB, [M('image reader', 'src/db.cc')], drivers=['m01'],
  explanation='The image is a read-only object of exactly its size with unknown octets; bounds of every access, the accept/refuse decision and every restored field are obligations.')
P('M02', 'Saving and loading a database are inverse, and the image layout is fixed',
  'For every reflection database, the announced image size is that of the header, the nodes and the names beyond the builtin types; saving writes exactly that, in little-endian header, nodes, names order, and refuses less room, writing nothing outside it. '
  'Loading the image into a fresh database restores every node field, every name, the bounds and the root, and saving that database again reproduces the image octet for octet.',
  ['inputs'], 'all node fields and names in databases of up to four nodes and five name octets; all insufficient rooms; databases of up to 700 nodes and 66 000 name octets; headers for every node count and name table size up to 2^32 in classes of 16 bits and more', 'Tests round-trip a few fixed graphs; they do not exercise every field or every size.', DB, [M('image writer and reader', 'src/db.cc')], drivers=['m02'],
  explanation='Node fields and name octets are unknown; the image is compared octet by octet with the documented layout and the loaded tables field by field.')
P('M03', 'Tables grow without losing or moving any declaration or name',
  'For every fill and capacity of the node and name tables and every name length, adding a declaration or a name gives it the next index or offset, initialises it (a node empty but for its tag, a name with its terminator), grows the table enough, and changes no other entry. '
  'Index 0 is the empty node and the empty name; the builtin types follow in table order, each found by its width and properties, and the builtin bounds come after them.',
  ['inputs', 'histories'], 'all capacities and fills below 2^24, all name lengths up to 2^22 (growth by up to 16 times)', 'Growth boundaries (a name that needs several doublings, the last free slot) need particular histories.', DB + ['include/crefl/types.h', 'src/model.cc'], [M('table growth', 'src/db.cc'), M('builtin types', 'src/db.cc')], drivers=['m03'],
  explanation='Capacity, fill and length are symbolic with their ordering as the input class; a witness index stands for any other entry.')
P('M04', 'Queries see exactly the graph: kinds, accessors, lists, names, machine types',
  'For every declaration graph and every node of any tag, each predicate holds exactly for its kind, each accessor returns the field it names (and an empty result for another kind), and tags print their own names. '
  'A list query on its kind reports the number of all matching members in list order, stores no more than the room given, accepts a missing destination or count, never modifies the graph, and on another kind fails storing nothing; machine type lookup returns the first of that width having the properties, or none.',
  ['inputs'], 'all tags and node fields; lists of up to four members of any tags in ascending and descending order with rooms 0 to five; up to five candidates in machine type lookup; lists of up to 600 members', 'Tests query a few well-formed graphs with ample room; mixed lists, short rooms and wrong kinds are not covered.', MOD, [M('queries', 'src/model.cc')], drivers=['m04'],
  explanation='The graph is an object of exactly its size with unknown fields, marked read-only; results are compared with a direct reading of the graph.')
P('M05', 'Widths and offsets follow one set of alignment rules for every nesting',
  'For every type, the width is the one the alignment rules give: machine types padded to a power of two (at most 128-bit alignment), to an octet, or not at all; arrays are count times element; structs place each field at the next multiple of its alignment in list order and pad to the largest alignment; unions are their widest member padded likewise; typedefs, qualifiers, aliases, fields, enums and sets take the layout of what they stand for. '
  'The field offsets query reports exactly those offsets and a final total, in bits, storing no more than the room given and skipping members that are no fields.',
  ['inputs'], 'all widths and padding flags of machine types; all structs and unions of up to two (quick: selected triples; thorough: all triples) of 20 representative types including nested ones, with unknown array counts (one dimension up to 2^48, products up to 2^56 bits); all result rooms; records of up to 260 members and nesting of 22', 'Tests check a few structs; unions, nesting, non-power-of-two widths and short rooms are not covered.', MOD, [M('layout', 'src/model.cc')], drivers=['m05'], args_quick=['--exclude', 'all_'],
  explanation='A reference layout in the driver, written from the rules, is compared with the code for every combination; array counts are unknown linear terms.')
P('U01', 'Formatted text is complete and file transfers are whole or reported',
  'For every text length the formatted-string functions return the whole text with nothing cut off or appended, and the base name of a path is what follows its last separator. '
  'Reading a file returns all of its octets and writing one stores exactly the given octets, or else an error is reported: whatever step fails (open, size query, a short transfer, close), the failure is never hidden, the file is closed exactly once, and nothing leaks. '
  'Loading or saving a database by file name does so exactly when the file transfer and the image function succeed, with the same octets.',
  ['inputs', 'faults'], 'text lengths around 0, 128, 256, 384 and 512 and up to 1030, all letters; all paths of up to six letters; files of up to nine octets with every combination of failing steps and short transfers; texts and files of selected sizes up to 70 000 octets', 'Tests never see a failing file operation, nor text as long as an internal buffer.',
  ['include/crefl/util.h', 'src/db.cc'], [M('string and file helpers', 'include/crefl/util.h'), M('database files', 'src/db.cc')], drivers=['u01'],
  explanation='The C library file functions are replaced by nondeterministic contracts (each may fail or transfer less); success is shown to hold exactly when no step failed, with the octets compared.')
LNK = ['src/link.cc', 'include/crefl/link.h', 'include/crefl/db.h']
P('L01', 'A declaration\'s digest covers exactly its content, attributes and children',
  'For every declaration of any kind, the digest indexed for it is the SHA-224 of its kind, name, properties, quantity, the digests of all its attributes and then of its child or all its members, in list order; nothing else enters it, so equal content gives equal digests and any change of content changes the message. '
  'A reference back to a declaration still being digested contributes that declaration\'s kind and name instead, so recursive types terminate. '
  'Every reachable declaration is indexed once, under its own node and fully qualified name, by node and by digest, however many nodes there are and wherever they lie.',
  ['inputs', 'histories'], 'every kind with up to three members and two attributes of any properties, quantities and names; recursive graphs; node indices across index growth; lists of up to 40 members or attributes, names of up to 700 octets (stored names: 4 000), qualified names of up to twelve parts', 'Tests compare a few digests; missed attributes, members, or properties collide silently.', LNK, [M('digest index', 'src/link.cc')], drivers=['l01'],
  explanation='SHA-224 is replaced by a recorder whose results identify their message (S01 decides SHA-224 itself); each message is compared with the template octet by octet, for unknown fields and names.')
P('L02', 'Merging keeps every declaration whole and shares exactly the equal ones',
  'Merging any number of databases into an empty one gives an archive with each input as a source, in order, in which every declaration reachable from an input has an equal counterpart: same kind, name, properties, quantity, attributes, members and referred types, in the same order, references to recursive types included. '
  'Named and unnamed types equal across inputs are stored once and referred to by alias; types that differ in any part are kept apart. '
  'The result is well formed (every index in range), the inputs are unchanged, all memory is freed, and merging a merged database again preserves all of this.',
  ['inputs', 'histories'], 'pairs of inputs drawn from subsets of eight groups of declarations (quick: selected pairs; thorough: all 64 x 64), up to three inputs with any, equal or empty source names, and merges of merges, with unknown properties and quantities; up to 17 inputs and up to 60 records in one input', 'Tests merge one or two fixed sources; sharing across inputs of nearly equal types is not covered.', LNK, [M('merge', 'src/link.cc')], drivers=['l02'], args_quick=['--exclude', 'all_'],
  explanation='The merged graph is walked in step with each input graph (a simulation relation with an assumption map for cycles); digests are an injective function of their message.')
P('D01', 'A dump prints each declaration exactly once, as it is, in fixed columns',
  'For every database and dump format, the dump prints a heading, a rule, and one row for every declaration from the root on, showing its index, attribute, next and link indices, kind, name, properties, the quantity under the name its kind gives it, and (where the format has them) its digest and fully qualified name. '
  'Text longer than its column is cut so that columns never run together; the statistics give the sizes of the tables and of the image.',
  ['inputs'], 'every kind in every format with all single properties and combinations of names and quantities at column boundaries; small graphs with nested, shared and attribute declarations; dumps of up to 222 rows, and rows with indexes from 990 to 10 040', 'Tests only check that the dump does not fail.', ['src/dump.cc', 'include/crefl/dump.h'], [M('dump', 'src/dump.cc')], drivers=['d01'],
  explanation='Output is captured as abstract characters and compared with a reference rendering written in the driver.')
P('T01', 'crefltool does what its command line says and its status tells the truth',
  'For every command line, crefltool dumps, merges, emits, or prints statistics of exactly the files named, in order, in the format of the option, and prints its usage and fails for anything else. '
  'Its exit status is zero exactly when every step (reading each input, merging, writing or closing the output) succeeded; after a failed step it writes no output. '
  'The emitted C source declares an array of exactly the octets of the database image, and its size.',
  ['inputs', 'faults'], 'all options of up to 15 letters; up to three inputs; every combination of failing steps; images of 0 to 67 octets and of selected sizes up to 4 100', 'Tests run no tool; a failing step in the middle is never exercised.', ['tool/crefltool.cc'], [M('command line tool', 'tool/crefltool.cc')], drivers=['t01'],
  explanation='Library and C library calls are replaced by nondeterministic contracts checking their arguments; the exit status is shown to be zero exactly when none failed, and the emitted text is parsed.')
P('T02', 'asn1tool prints exactly the objects of a file, and its status tells the truth',
  'For every file content, asn1tool reads nothing outside the file or outside the enclosing object, prints one line per object in order with its position, length, nesting, constructed mark, tag name and value (integers, reals and bit strings as octets, strings quoted, object identifiers by name and number), and walks sets and sequences to a nesting of sixteen. '
  'Its exit status is zero exactly when the file could be read and consists entirely of well-formed objects, each within the object enclosing it; anything else, including an empty file, deeper nesting, a failing read or another command line, gives a failure status.',
  ['inputs', 'faults'], 'all files of up to six octets (thorough: seven), all leaves under every nesting up to 17, all length and tag forms, failing reads, and 128 printed files covering every tag; contents of up to 66 000 octets and up to 500 objects in one file', 'Tests run no tool; malformed nesting needs particular lengths at particular positions.', ['tool/asn1tool.cc', 'src/asn1.cc'], [M('object walk', 'tool/asn1tool.cc')], drivers=['t02'], args_quick=['--exclude', 'all_'],
  explanation='File octets are unknown; a reference walk in the driver decides well-formedness and expected lines. Object identifier conversion is replaced by its contract (C08, O01 decide it).')
P('O01', 'Object identifiers have the name the data file gives them, and no others do',
  'For every object identifier listed in data/oids.txt, looking up its content octets yields its listed name, whatever follows the content in memory; content that is not listed, be it shorter, longer, or different in any octet, has the empty name. '
  'Lookups read only the content given and leave the table unchanged.',
  ['inputs'], 'all 1073 listed identifiers; every listed prefix followed by every octet; listed identifiers cut short and lengthened (quick: eight octets for each of three positions; thorough: every octet); thorough: all contents of up to two octets', 'No test looks up a name.', ['src/oid.cc', 'data/oids.txt'], [M('identifier names', 'src/oid.cc')], drivers=['o01'], args_quick=['--exclude', 'all_'],
  explanation='The data file is compiled into the driver as a table; the constant table of the source is propagated through its ordered map and lookups, per class of contents sharing a prefix.')
REF = ['src/reflect.cc', 'src/db.cc', 'include/crefl/db.h', 'include/crefl/model.h']
RASSUME = ['clang functions that are not inline behave as their documentation says (contracts in drivers/clangast.h); inline clang code is analysed as it is']
P('R01', 'Reflection records every C declaration with its exact type and properties',
  'For every typedef, variable, function, struct, union and enum of a source file the plugin records a declaration of that kind with its name; its type, spelled out through qualifiers, pointers and arrays down to the builtin arithmetic type of its kind and width, or the struct, union or enum declared; and its static, inline, extern C, global and noreturn properties. '
  'Bit-field widths, enumerator values of any sign and width, array counts of any size and kind, the result and all parameters of a function in order, and all attributes of a declaration with their arguments are recorded exactly, and every recorded name lies in the table.',
  ['inputs'], 'all builtin arithmetic types, all qualifier sets, pointers and arrays (constant, incomplete, variable, static) to a depth of three in every position, all array counts, bit widths and enumerator values (any 1 to 64-bit type), up to four parameters and all pairs of attributes', 'Tests reflect a few fixed sources and only see whether the dump succeeds; they compare nothing that was recorded.',
  REF, [M('type and declaration recording', 'src/reflect.cc')], drivers=['r01'], assume=RASSUME,
  explanation='A description of declarations is turned into a synthetic clang AST with unknown values; the plugin\'s visitor is analysed over it, and the recorded graph is compared with the description.')
P('R02', 'Reflection records exactly the declarations of a file, in order and nested',
  'For every source file the recorded graph has one root, the source file with its base name, whose members are exactly the valid declarations of the file in order, with declarations made in function bodies after their function; each struct, union and enum holds exactly its members in order, nested ones at their place. '
  'Every use of a struct, union or enum, before, inside or after its definition, refers to its declaration, and recursive types are closed. '
  'This holds wherever the tables have to grow in between, and debugging output changes none of it.',
  ['inputs', 'histories'], 'all sequences of three declarations of ten forms, three-level nesting of records at every place, uses from typedefs, variables, members and parameters in every order, mutual recursion, and growth of either table at every point of a file of all forms; up to 100 declarations or members, nesting up to 34 records', 'Tests reflect a few fixed sources; wrong links, lost siblings and stale pointers after table growth need particular orders and sizes.',
  REF, [M('declaration graph', 'src/reflect.cc')], drivers=['r02'], assume=RASSUME,
  explanation='As R01: the recorded graph is walked in step with the description the synthetic AST was made from.')
P('R03', 'The plugin obeys its arguments, and any failure ends the compiler in error',
  'For every list of plugin arguments, -o with a file, -dump and -debug are taken in any order and number, and anything else (an unknown option, a missing file name, nothing to do) is refused with a failure status. '
  'At the end of a source file the database describing exactly that file is dumped if asked, written once to the file named if one is, and freed; a failed write ends the compiler with a failure status.',
  ['inputs', 'faults'], 'all lists of up to three of ten words, four of four and five of five; all options of up to nine and file names of up to 23 letters; all combinations of actions with failing writes', 'Tests run the plugin in one way and never see it fail.',
  ['src/reflect.cc'], [M('plugin arguments and actions', 'src/reflect.cc')], drivers=['r03'], assume=RASSUME,
  explanation='The database writer and dumper and exit are replaced by recorders that check their arguments; the written graph is compared with the description of the file.')
