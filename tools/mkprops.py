import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Save then open with the same key gives the database back",
 "Whenever saving a database succeeds, opening the written bytes with the same composite key succeeds and returns a database equal to the one saved in every field: header settings, meta data, binaries, custom data, custom icons, and the whole tree of groups, entries and history entries with all their attributes and their order. Only these are normalised: the generator name becomes \"rust-kpdb\", parent links are recomputed from the tree (history entries carry none), history inside a history entry is dropped, and a custom string name that is a case variant of one of the five standard names becomes that standard name. Text the file format cannot carry makes saving fail instead of producing a file that reads back differently or not at all.",
 ["inputs"],"every database value (any tree shape, any text and byte contents, any key, both compressions), except trees too deep for the call stack",
 "Integration tests save and reopen three fixed databases that leave most fields at their defaults, so a field that is never written, or a value that is written but not read back, goes unnoticed.",
 ["src/types/database.rs","src/format/kdb2_writer.rs","src/format/kdb2_reader.rs","src/format/kdb2_xml_writer.rs","src/format/kdb2_xml_reader.rs","src/format/xml.rs"],
 [("XML section writers","src/format/kdb2_xml_writer.rs"),("XML section readers","src/format/kdb2_xml_reader.rs"),("typed value readers and writers","src/format/xml.rs"),("meta data and XML data assembled into a database","src/types/database.rs open_kdb2")],
 [("Database","all persistent state","src/types/database.rs")],["Database::save","Database::open"])
p("C02","A database opens only if all of its integrity checks hold",
 "Opening succeeds only if both file signatures are right, the decrypted payload begins with the stream start bytes named in the header, the payload blocks are numbered 0, 1, 2, ... and each carries the SHA-256 hash of its data, the terminating empty block carries the all-zero hash, and the header hash recorded inside the encrypted document, when present, is the SHA-256 hash of every byte of the outer header. If any of these fails, opening returns an error and no database.",
 ["inputs"],"every byte sequence and every composite key, including files with one or many altered, removed, swapped or inserted bytes or blocks",
 "The tests feed two bad signatures and otherwise only intact files; they never present a corrupted block, a wrong key, a reordered block or a changed header.",
 ["src/format/kdb2_reader.rs","src/types/database.rs","src/io/log_reader.rs"],
 [("stream start byte comparison","src/format/kdb2_reader.rs read"),("block id and hash checks","src/format/kdb2_reader.rs read_xml_bytes"),("header hash comparison","src/types/database.rs open_kdb2"),("logging of header bytes","src/io/log_reader.rs")],
 [],["Database::open"])
p("C03","Opening arbitrary bytes never panics",
 "Opening a database or a key file from any byte sequence whatsoever with any key ends in a value or an error; it never panics, never indexes outside its data and never overflows, even when the bytes decrypt correctly to a payload, block list or XML document that is empty, truncated, hostile or contains unusual text.",
 ["inputs"],"every byte sequence given to the database reader and the key file reader, including correctly encrypted files with arbitrary inner payload and arbitrary XML",
 "The tests open five well-formed files; every path for malformed contents after decryption is unexercised.",
 ["src/format/kdb2_reader.rs","src/format/kdb2_xml_reader.rs","src/format/xml.rs","src/format/kf_reader.rs","src/types/color.rs","src/crypto/aes256.rs"],
 [("length checks before slicing","src/format/kdb2_reader.rs read"),("text value parsers","src/format/xml.rs, src/types/color.rs"),("key file dispatch","src/format/kf_reader.rs")],
 [],["Database::open","KeyFile::open"])
p("C04","Opening depends on the bytes of the source, not on how they arrive",
 "The result of opening a database is a function of the source's byte sequence and the key only: a source that delivers the same bytes in pieces of any size, or interrupts and resumes, gives the same result. A source that ends early gives an error and missing bytes are never made up, and a read error of the source makes opening fail with that error.",
 ["inputs","fault_sequences"],"every byte sequence, every way a reader may split it into partial reads, every point at which it may end or fail",
 "Tests read from files and in-memory slices, which fill every buffer in one call; partial reads never happen there.",
 ["src/types/database.rs","src/format/kdb2_reader.rs","src/format/kf_reader.rs","src/io/log_reader.rs"],
 [("fixed-size reads","src/format/kdb2_reader.rs read_bytes_*"),("signature reads","src/types/database.rs open"),("log of consumed bytes","src/io/log_reader.rs read")],
 [("log_data","bytes consumed so far while logging is on","src/io/log_reader.rs")],["Database::open","KeyFile::open"])
p("C05","A successful save delivered every byte to the sink",
 "When saving a database or key file returns success, the sink has accepted exactly the bytes of one complete file, in order, however small the pieces it accepted per call. If the sink reports an error or accepts nothing at some point, saving returns an error.",
 ["inputs","fault_sequences"],"every database and key file, every sequence of short writes, interruptions and failures of the sink",
 "Tests write to files and vectors, which accept every buffer whole and never fail.",
 ["src/format/kdb2_writer.rs","src/format/kf_writer.rs","src/io/log_writer.rs","src/types/database.rs"],
 [("header and payload writes","src/format/kdb2_writer.rs"),("key file writes","src/format/kf_writer.rs"),("log of delivered bytes","src/io/log_writer.rs write")],
 [("log_data","bytes delivered so far while logging is on","src/io/log_writer.rs")],["Database::save","KeyFile::save"])
p("C06","The outer header is written and read as the KDBX 3.1 layout demands",
 "A saved file starts with the two signatures, the version, and then exactly the header fields the format requires, each as id, little-endian 16-bit length and data, ended by the end field, with the values taken from the database; reading accepts the fields in any order, takes the last of repeated fields, and returns the values written there. Every malformed header is refused with the specific error for it: wrong signature, unknown type, field of the wrong length, unknown field, unsupported cipher or compression, or a required field missing; a comment too long for its length field is refused when saving.",
 ["inputs"],"every header field order, repetition and length, every value of every field, every version and comment",
 "The tests read headers in the one order the test files use, and no test presents a header of the wrong size, an unknown field or a missing one.",
 ["src/format/kdb2_reader.rs","src/format/kdb2_writer.rs","src/format/kdb2.rs","src/types/database.rs","src/common.rs"],
 [("header loop","src/format/kdb2_reader.rs read"),("per-field readers","src/format/kdb2_reader.rs read_*"),("per-field writers","src/format/kdb2_writer.rs write_*"),("layout constants","src/format/kdb2.rs")],
 [],["Database::save","Database::open"])
p("C07","Keys are derived exactly as KeePass derives them",
 "The composite key is SHA-256 over the concatenation of the SHA-256 of the password (if any) and the key file's key (if any); the transformed key is SHA-256 of both 16-byte halves of it after exactly the header's number of AES-256 encryptions under the transform seed; the master key is SHA-256 of master seed and transformed key; the inner stream key is SHA-256 of the protected stream key. This holds for every password, key file, seed and round count, and reading and writing use the same derivation, so files are interchangeable with KeePass.",
 ["inputs"],"every password, key file content and type, seed, and number of transform rounds including 0",
 "Tests check a few fixed vectors; they do not vary round counts, seeds and inputs together and cannot cover all values.",
 ["src/types/composite_key.rs","src/types/transformed_key.rs","src/types/master_key.rs","src/types/stream_key.rs","src/crypto/sha256.rs","src/format/kdb2_reader.rs","src/format/kdb2_writer.rs"],
 [("composite key","src/types/composite_key.rs"),("transform rounds","src/types/transformed_key.rs new"),("master key","src/types/master_key.rs new"),("stream key","src/types/stream_key.rs new")],
 [],["CompositeKey::from_password","CompositeKey::from_key_file","CompositeKey::from_both","CompositeKey::unsecure","Database::open","Database::save"])
p("C08","Protected values never appear in clear and decrypt in document order",
 "In the document inside a saved file every protected string and protected binary, history included, is marked protected and stored only as its bytes XORed with the next bytes of one Salsa20 keystream shared by all protected values in document order; values that are not protected are stored unencrypted and use no keystream. Reading consumes the keystream in the same document order whatever the order of the elements inside each item, so every protected value is recovered exactly, keeps its protection flag, and an unprotected value stays unprotected.",
 ["inputs"],"every tree with any mixture and number of protected and unprotected strings and binaries in entries and history entries, any lengths including empty",
 "The tests' files hold one protected value each, so a keystream that is restarted, skipped or consumed out of order between values is not noticed.",
 ["src/format/xml.rs","src/format/kdb2_xml_writer.rs","src/format/kdb2_xml_reader.rs","src/crypto/salsa20.rs","src/types/string_value.rs"],
 [("protected value writers","src/format/kdb2_xml_writer.rs write_string_section, write_binary_section"),("protected value readers","src/format/xml.rs read_string_value_opt, read_binary_value_opt"),("keystream","src/crypto/salsa20.rs")],
 [("Salsa20 cipher","position in the keystream","src/crypto/salsa20.rs")],["Database::save","Database::open"])
p("C09","Payload blocks and compression reassemble to the document",
 "The document read from a file is the decompression of the concatenated data of all its payload blocks in order when the header says GZip, and that concatenation itself when it says none, for any division of the data into blocks. Saving stores the document, compressed as the database's setting says, in numbered hashed blocks followed by the empty final block, and truncated or damaged compressed data is an error.",
 ["inputs"],"every document, both compression settings, every division into non-empty blocks",
 "The test files are small and hold a single data block; files above KeePass's 1 MiB block size are never read.",
 ["src/format/kdb2_reader.rs","src/format/kdb2_writer.rs","src/compression/gzip.rs"],
 [("block reading","src/format/kdb2_reader.rs read_xml_bytes"),("block writing","src/format/kdb2_writer.rs write_block, write_block_final"),("compression","src/compression/gzip.rs")],
 [],["Database::open","Database::save"])
p("C10","Group traversal visits every group exactly once, level by level",
 "Iterating from a group yields that group first and then every descendant group exactly once, in breadth-first order (all groups of a level, in the order their parents were yielded and their position within the parent, before any group of the next level), and then ends. The mutable traversal yields the same groups in the same order.",
 ["inputs"],"every tree of groups of any shape, depth and width, and any number of further calls after the end",
 "One test walks a single small fixed tree.",
 ["src/types/group.rs"],
 [("breadth-first queue","src/types/group.rs Iter::next, IterMut::next")],
 [("todo, curr","groups still to visit and the one whose children are not queued yet","src/types/group.rs")],["Group::iter","Group::iter_mut"])
p("C11","Search and lookup return exactly the matching items and never search secrets",
 "Searching entries by text returns, in traversal order and once each, exactly the entries that have an unprotected string value containing the text ignoring case; the contents of protected values, string names and history entries never influence the result. Searching groups by name returns exactly the groups whose name contains the text ignoring case, and looking up an entry or group by identifier returns the first match in traversal order or nothing; the mutable variants return the same items.",
 ["inputs"],"every database tree, every search text (empty, mixed case, non-ASCII) and every identifier, present, absent or duplicated",
 "Tests search one two-level tree for a few ASCII texts.",
 ["src/types/database.rs","src/types/group.rs"],
 [("entry filter","src/types/database.rs entry_contains_string, find_entries"),("group filter","src/types/database.rs find_groups"),("lookup","src/types/database.rs get_entry, get_group")],
 [],["Database::find_entries","Database::find_groups","Database::get_entry","Database::get_group","the _mut variants"])
p("C12","Adding and removing entries and groups changes exactly that item",
 "Adding an entry or subgroup to a group puts it, unchanged, after the existing ones. Removing by identifier takes out and returns the first direct child with that identifier, keeps all other children in their order, and when there is none returns nothing and changes nothing; no other attribute of the group is touched in either case.",
 ["inputs","histories"],"every group contents (including duplicate and absent identifiers, nested descendants with the same identifier) and every sequence of additions and removals",
 "Tests add and remove a single item in a group with at most two.",
 ["src/types/group.rs"],
 [("add","src/types/group.rs add_entry, add_group"),("remove","src/types/group.rs remove_entry, remove_group")],
 [("entries, groups","ordered direct children","src/types/group.rs")],["Group::add_entry","Group::add_group","Group::remove_entry","Group::remove_group"])
p("C13","Opened databases link every entry and group to its parent",
 "After opening any database, the parent identifier of every active entry and of every group below the root equals the identifier of the group that directly contains it, and the root group's parent is the nil identifier. This holds at every depth and wherever the group's own identifier stands in the file relative to its children.",
 ["inputs"],"every file that opens, any tree shape and any order of the elements inside a group",
 "One test checks entries of a single flat file in which the identifier comes first.",
 ["src/format/kdb2_xml_reader.rs"],
 [("parent assignment after the children are read","src/format/kdb2_xml_reader.rs read_group")],
 [("parent","identifier of the containing group","src/types/entry.rs, src/types/group.rs")],["Database::open"])
p("C14","Key files are classified by size and keep their key",
 "A key file of exactly 32 bytes is read as that binary key, one of exactly 64 bytes as hexadecimal text in either letter case (an error if it is not hexadecimal), and any other as KeePass XML whose base64 data is the key and whose version, where it states one, is 1.00; anything else is an error. Saving a key file of any type whose key has 32 bytes and opening the result gives the same key and type, and a saved hexadecimal file is the 64 lower-case digits.",
 ["inputs"],"every 32-byte key and every type for saving; every byte sequence for opening",
 "Tests use one key per type; they do not cover other sizes, letter cases, versions, element orders or malformed text.",
 ["src/format/kf_reader.rs","src/format/kf_writer.rs","src/format/kf.rs","src/types/key_file.rs"],
 [("dispatch on length","src/format/kf_reader.rs read"),("XML key reader","src/format/kf_reader.rs read_xml*"),("writers","src/format/kf_writer.rs")],
 [],["KeyFile::open","KeyFile::save"])
p("C15","Value codecs are exact inverses and refuse everything else",
 "Converting a colour, icon, transfer obfuscation mode or string name to its stored form and back gives the same value, distinct values have distinct stored forms, and the stored forms are KeePass's: #rrggbb, icon numbers 0 to 68, obfuscation 0 and 1, and the names Notes, Password, Title, URL and UserName. Colour text that is not '#' followed by exactly six hexadecimal digits, and numbers outside the ranges, are refused with an error; the standard names are recognised in any letter case and every other name is kept unchanged (so only a custom name that is a case variant of a standard name does not survive the round trip: it becomes that standard name).",
 ["inputs"],"every colour, every string as colour text, every 32-bit number as icon or obfuscation, every string as name",
 "Tests try a handful of strings; colour text with multi-byte characters or a sign is never tried, and only the ends of the icon range are.",
 ["src/types/color.rs","src/types/icon.rs","src/types/obfuscation.rs","src/types/string_key.rs"],
 [("colour","src/types/color.rs from_hex_string, to_hex_string"),("icon","src/types/icon.rs from_i32, to_i32"),("obfuscation","src/types/obfuscation.rs"),("string name","src/types/string_key.rs")],
 [],["Color::from_hex_string","Color::to_hex_string","Icon::from_i32","Icon::to_i32","Obfuscation::from_i32","StringKey::from_string","StringKey::to_string"])
p("C16","Entry accessors read and write exactly their own string",
 "Setting the notes, password, title, URL, user name or a named string of an entry makes exactly that string read back as the value set and changes no other string or attribute; the password is stored protected and the others are stored unprotected. Reading a string gives its text whether it is protected or not, and nothing when it is absent. The time accessors of entries and groups likewise read and write exactly their own time and nothing else.",
 ["inputs","histories"],"every entry state, every value and name, every sequence of set and get operations",
 "Tests set and read one field at a time on a fresh entry, so interference between fields is not visible.",
 ["src/types/entry.rs","src/types/group.rs","src/types/times.rs","src/types/string_value.rs","src/common.rs"],
 [("accessors","src/types/entry.rs"),("value construction","src/types/string_value.rs new"),("protection defaults","src/common.rs")],
 [("strings","map from string name to value","src/types/entry.rs")],["Entry accessors and setters"])
p("C17","Every save uses fresh, independent random secrets",
 "Each save draws its transform seed, initialisation vector, master seed, protected stream key and stream start bytes anew, each in full length and each from its own bytes of the operating system's random source, and writes exactly those values into the header. New key files likewise take all 32 bytes of their key from that source.",
 ["inputs","histories"],"every database and key file type, every sequence of saves",
 "A test that saves once or twice cannot tell a reused, shortened or constant secret from a fresh one, and no test looks at them.",
 ["src/format/kdb2_writer.rs","src/crypto/random_gen.rs","src/types/key_file.rs"],
 [("secret generation","src/format/kdb2_writer.rs write"),("random source","src/crypto/random_gen.rs"),("key generation","src/types/key_file.rs")],
 [],["Database::save","KeyFile::new_binary","KeyFile::new_hex","KeyFile::new_xml"])
p("C18","Reading the document does not depend on element order or unknown elements",
 "The database read from a document depends only on the elements it holds: elements with different names inside the same parent may come in any order, unknown elements holding text or nothing are ignored wherever they occur, elements that are absent leave the documented default value, and repeated children (groups, entries, history entries, associations, binaries) keep their document order. A value that cannot be parsed for its type is an error rather than a silently different value.",
 ["inputs"],"every order of elements within their parents, every position and name of an unknown text element, every subset of the optional elements",
 "The tests only read documents in the order written by KeePass, KeePassX or this library.",
 ["src/format/kdb2_xml_reader.rs","src/format/xml.rs","src/types/xml_data.rs"],
 [("section loops","src/format/kdb2_xml_reader.rs"),("typed value readers","src/format/xml.rs"),("defaults","src/types/xml_data.rs, Entry and Group defaults")],
 [],["Database::open"])
p("C19","Mutable traversal never hands out overlapping mutable access",
 "The mutable references obtained from one mutable traversal or one mutable search are disjoint: holding several of them at once never gives two mutable ways to reach the same group or entry.",
 ["inputs","programs"],"every tree and every safe client program that keeps several of the returned references",
 "A test cannot observe undefined behaviour caused by aliasing; it needs an aliasing model over all client programs.",
 ["src/types/group.rs","src/types/database.rs"],
 [("raw copy of the current mutable reference","src/types/group.rs IterMut::next")],
 [],["Group::iter_mut","Database::find_groups_mut"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80, x['id']
