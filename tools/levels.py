"""Per property: the claimed level, how the search makes its cases, what is assumed."""
COMMON = ['The search part is bounded: it stands in for functions listed as not proved and supplies failing inputs; it proves nothing.']
R = {
 'C01': 'random databases (random trees, texts incl. XML specials and white space, bytes, times, keys, both compressions) saved and reopened, every field compared; non-trivial: at least one entry or group',
 'C02': 'files composed by an independent oracle, then one thing altered (byte, block, hash, order, header hash, key); non-trivial: the alteration changes a checked byte',
 'C03': 'correctly encrypted files with hostile payloads, block lists and documents, random bytes, hostile key files; non-trivial: passes the signature',
 'C04': 'the same file read through sources that split, interrupt, end or fail at random points; non-trivial: at least one short read, end or fault',
 'C05': 'databases and key files saved to sinks that accept few bytes, interrupt or fail at random points; non-trivial: at least one short write or fault',
 'C06': 'saved headers parsed by an independent parser; composed headers in any order, with repeats and malformed fields; non-trivial: not the standard header',
 'C07': 'random passwords, key files, seeds and round counts against an independent derivation; non-trivial: every case',
 'C08': 'documents and saved databases with random mixtures of protected values, decrypted by an independent Salsa20; non-trivial: at least two values',
 'C09': 'documents divided into random blocks, both compressions, truncated streams; non-trivial: more than one block',
 'C10': 'random trees walked by the library and by an independent level-order walk; non-trivial: at least three groups',
 'C11': 'random trees, texts and identifiers against an independent filter; non-trivial: at least one group with an entry',
 'C12': 'random sequences of additions and removals against a list model; non-trivial: at least one removal',
 'C13': 'random documents with identifiers before or after children; non-trivial: a nested group or entry',
 'C14': 'random key files of all types and sizes, letter cases and XML forms; non-trivial: every case',
 'C15': 'all icons and obfuscations, random and boundary texts as colours and names; non-trivial: every case',
 'C16': 'random sequences of set and get calls against a map model; non-trivial: at least two sets',
 'C17': 'repeated saves with the operating system random source watched; non-trivial: every case',
 'C18': 'random documents and random reorderings, omissions and unknown elements against an independent reader; non-trivial: at least one reordering',
}
A = {p: [] for p in R}
TECH = 'deductive verification with Verus of contracts on the functions extracted from /repo on every run; bounded search of the real code for failing inputs'
PROOF = {
 'C01': 'lemma save_then_open over the contracts of Database::save and Database::open, for documents below 2^30 bytes; every function below both is under contract and discharged; the XML crate, gzip and the ciphers are assumed to read back what they wrote',
 'C02': 'lemma opening_checks_everything over the contract of Database::open; every function below it is under contract and discharged; hash and cipher are uninterpreted functions',
 'C03': 'every function reachable from open is under contract and discharged: no overflow, no index out of range, no failing unwrap, termination; not the depth of the stack (known finding)',
 'C04': 'lemma opening_depends_on_the_bytes over the contract of Database::open; the source is an arbitrary sequence of answers',
 'C05': 'postconditions of save and of every writer function, for a sink that takes any number of bytes per call, interrupts or fails',
 'C06': 'postconditions of the header writer and reader; every function is under contract and discharged',
 'C07': 'postconditions of the key types and of the reader and writer; SHA-256 and AES are uninterpreted functions, compared with independent code by the search',
 'C08': 'postconditions of the value writers and readers (keystream position threaded through the document) and lemma document_round_trip; Salsa20 is an uninterpreted function, compared with independent code by the search',
 'C09': 'postconditions of the payload reader and writer; gzip is assumed to be invertible',
 'C10': 'every function of the property is under contract and discharged; the mutable traversal with its references taken as shared (rule R28)',
 'C11': 'every function of the property is under contract and discharged; the mutable variants with their references taken as shared (rule R28); lower-casing and text search of std are axioms',
 'C12': 'every function of the property is under contract and discharged',
 'C13': 'lemma opened_databases_are_linked over the contract of Database::open',
 'C14': 'postconditions of KeyFile::open and KeyFile::save and lemma key_file_round_trip over them; every function is under contract and discharged',
 'C15': 'every function of the property is under contract and discharged; formatting of numbers is an axiom',
 'C16': 'every function of the property is under contract and discharged; HashMap is assumed to behave as a map',
 'C18': 'postconditions of every read_X (a fold over the elements of its section) and lemmas X_in_any_order, X_deeper_NAME, document_in_any_order over them: elements of different names in any order, unknown elements holding text or nothing anywhere; of elements whose protected values are decrypted in document order, those with protected values keep their order',
 'C17': 'postconditions of the random generator, the key file constructors and the writer; the operating system source is an arbitrary byte sequence consumed once',
}
LEVEL = {p: dict(level='proof' if p in PROOF else 'exploration', rule=R[p], assumptions=COMMON + A[p]) for p in R}
for p in R:
    LEVEL[p]['technique'] = TECH
    LEVEL[p]['note'] = PROOF.get(p, 'part of the functions is under contract and discharged, the rest is searched within bounds')
