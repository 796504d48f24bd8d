CPP = 'contract-based deductive verification of the C++ sources (LLVM IR compiled from /repo on every run; symbolic execution with checked loop invariants, z3 back end)'
def claim(p, note): TECH[p] = (CPP, note)
claim('C23', 'All obligations of the three predicate contracts are discharged for every epoch and every field value.')
claim('C24', 'is_slashable is discharged for all field values; is_valid for lists of every length (sound, complete and empty case), with the bodies of std::is_sorted and std::adjacent_find executed, not assumed.')
claim('C25', 'log2ceil is discharged for every 64-bit value; integer_squareroot for every 64-bit value and every floating-point estimate.')
claim('C17', 'Bitlist::serialize and Bitlist::deserialize are discharged for every bit list and every input of any length (loop invariants inferred and checked).')
claim('C18', 'Bitvector<N>::serialize/deserialize and the default constructor are discharged for every content and input, for N=1..40 and 63,64,65,100,127,128,129; other N only bounded runs.')
claim('C19', 'Slot, Boolean and Bytes<N> (N=1,3,4,8,20,32,48,96) encode/decode/hash contracts are discharged for every value and every input byte string.')
claim('C07', 'HashTree(chunks, limit) and the default limit are discharged against the recursive definition of the SSZ tree for every count below 2^51, every content and every 64-bit limit; the level loops by checked invariants, the level sizes and zero subtrees by inductive lemmas; the hashing backend by its contract (C01-C05).')
claim('C08', 'Same obligations as C07 over all memory accesses of the constructor (caller chunks, node vector, zero-subtree table, backend buffers) and variants for both loops.')
claim('C09', 'pack_and_pad, the byte constructor and mix_in are discharged for every byte string and every length.')
claim('C06', 'Feature detection and backend selection are discharged for every CPUID answer (CPUID an uninterpreted function, the bodies of __get_cpuid and __get_cpuid_count executed); the instruction set of every backend by classifying every instruction it can reach. One known finding: the portable backend needs AVX.')
claim("C10", "For all 27 container types and both presets, the parts handed to serialize_, deserialize_ and hash_tree_ (and their C++ types, vector lengths and list limits) are discharged against an independent phase-0 schema; the generic operations and element types enter by their contracts.")
SHAPES = ' for every sequence of field kinds (fixed/variable size) that occurs in a container type and every sequence of at most five, with arbitrary sizes, contents and acceptance of the fields; loops over fields are executed completely (their number is a constant of the type)'
claim('C11', 'serialize_ is discharged' + SHAPES + '.')
claim('C12', 'deserialize_ is discharged against the acceptance predicate' + SHAPES + '; that encodings are accepted and split into the fields\' own encodings is a lemma per sequence.')
claim('C21', 'encode_ and decode_ are discharged for the field names of all 27 container types over arbitrary fields, with yaml-cpp nodes by contract; encode/decode of every container type hand over exactly its fields under the specification names. Slot, Boolean, vectors and lists are discharged over the conversions of yaml-cpp given by contract.')
claim('C14', 'VectorFixedSizedParts (10 instances of element size and length up to 65536, among them every one that occurs) and ListFixedSizedParts (element sizes 1, 8, 32, 72, 112, 121, 416, 1240: all that occur, and 1) are discharged over an opaque element type given by its contract, for lists and inputs of every length; element loops by checked invariants. Multiples of the element size and the other lengths are separate cases.')
claim('C16', 'hash_tree of vectors and lists of opaque elements, of integer vectors and lists, of variable-size lists, of bit lists (any length), of Bitvector<N> and Bytes<N>, the default Container::hash_tree and hash_tree_ (all field sequences) are discharged against the contract of HashTree (C07, C09): which leaves, which limit, which length mixed in.')
claim('C15', 'ListVariableSizedParts::serialize and ::deserialize are discharged over an opaque element type for lists of every length and inputs of every length (offset table, slices, rejection of everything else); loops by checked invariants over ghost sums of lengths; that an encoding is accepted and split into the element encodings is a lemma.')
claim('C13', 'Every memory access, arithmetic, exception and loop-variant obligation of all decoders under contract (C10, C12, C14, C15, C17, C18, C19) for every input; generic operations over arbitrary fields, lists over arbitrary elements.')
claim('C20', 'Printing and reading of byte arrays (8 sizes), bit vectors (8 sizes) and bit lists are discharged for every value and every text of any length, the digit table for all 256 characters, and encode/decode against the contract of yaml-cpp scalars.')
claim('C22', 'Equality of Slot, Boolean, Bytes (8 sizes, and against byte vectors), Bitvector (8 sizes), Bitlist, vectors (7 instances) and lists (4) of opaque elements, and of all 27 container types over the equalities of their fields, is discharged for all values and lengths.')
claim('C26', 'The accessors of BeaconBlockBody, BeaconBlock and BeaconState (both presets), size and iterators of vectors and lists of opaque elements of every length, and the operations of Bytes (8 sizes, 6 pairs of sizes for concatenation) are discharged for all contents.')
NA = {}
