#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
B="mopaq/src/builder.rs"; A="mopaq/src/archive.rs"; F="storm-ffi/src/lib.rs"
p("C01","Files read back exactly as they were added",
 "Every file put into a newly built archive reads back byte for byte under the name it was added with, whatever the format version, sector size, lossless compression method, encryption mode, checksum option, table-compression option, source (memory or disk), file size, content and number of companion files. A build request that cannot be honoured ends in an error, never in an archive that reads back differently.",
 ["inputs","configurations"],"all file contents and sizes x all builder options x all sets of companion files",
 "The tests build a few dozen archives, nearly all with compressible data smaller than one sector; the fidelity claim ranges over size/sector boundaries, incompressible and mixed sectors, key values and option combinations.",
 [B,A,"mopaq/src/compression/compress.rs","mopaq/src/compression/decompress.rs"],
 [("pending files","what the user asked to store",B),("block entry flags","how a stored file must be decoded",B+" / "+A)],
 [("single-unit and sector writer",B+" write_file"),("single-unit and sector reader",A+" read_file, read_sectored_file")],
 ["ArchiveBuilder::build","Archive::read_file"])
p("C02","A name finds the file stored under it, and nothing else",
 "Looking up a name returns the file that was stored under that name and never another file; a name that was not stored is reported absent. Names are compared ignoring ASCII letter case and treating slash and backslash alike, in every format version and however the names collide in the lookup tables. Building an archive with two files of the same name (under that comparison) and language is refused.",
 ["inputs","configurations","histories"],"all sets of names (any collision pattern) x format versions x table fill levels x probe names",
 "Tests look up a handful of fixed names that do not collide; wrap-around probing, full chains, empty-slot aliasing in the extended tables and near-equal names need chosen collisions.",
 [B,A,"mopaq/src/tables/hash.rs","mopaq/src/tables/het.rs","mopaq/src/tables/bet.rs","mopaq/src/crypto/hash.rs"],
 [("hash table","open-addressing table from name hashes to blocks","mopaq/src/tables/hash.rs"),("HET/BET","extended tables of v3+","mopaq/src/tables/het.rs, bet.rs")],
 [("linear probing on insert and find",B+" add_to_hash_table; mopaq/src/tables/hash.rs find_file"),("name normalisation","mopaq/src/crypto/hash.rs")],
 ["Archive::find_file","Archive::read_file","ArchiveBuilder::build"])
p("C03","Listings name every stored file exactly once, with its true size",
 "Listing an archive built with a generated name list reports every stored file whose name a name list can carry (no line breaks, comment markers or surrounding blanks) under its own name exactly once, with its true size and storage attributes, and every listed name can be read. Enumerating the tables instead reports each stored file exactly once even when names are unknown, and the archive summary counts, and answers about special files and encryption, agree with what was stored.",
 ["inputs","configurations"],"all sets of list-representable names x sizes (including empty files) x format versions x listfile options",
 "Tests check a few names in one listing; completeness, multiplicity and agreement between the four listing entry points and the summary over empty files, many files and all versions are untested.",
 [A,B,"mopaq/src/special_files/listfile.rs"],
 [("(listfile)","stored list of names",B+" prepare_listfile")],
 [("listfile lookup and table enumeration",A+" list, list_all, list_with_hashes, list_all_with_hashes, get_info")],
 ["Archive::list*","Archive::get_info"])
p("C04","A build replaces the destination atomically or not at all",
 "At every moment of a build, and after it succeeds, fails (bad input, unreadable source, full disk, I/O error, name conflict) or is killed, the destination path holds either exactly what it held before or the complete new archive. A build that reports success has installed the complete archive; one that reports failure has left the destination and every other file in its directory as they were.",
 ["crash_points","fault_sequences","histories"],"every file-system operation of a build as a kill point or failure point x prior destination state x build inputs",
 "Tests only run builds that succeed or fail on input validation; no test interrupts a build or makes an I/O operation fail.",
 [B,A],
 [("destination file","old bytes / new archive",B+" build"),("temporary file","work in progress",B+" build")],
 [("temporary file in the target directory + rename",B+" build (NamedTempFile, persist)")],
 ["file system operations of the build","destination bytes after each crash or fault"])
p("C05","Damaged checksummed files are reported, never returned as good data",
 "When an archive was built with checksums, damage to the stored bytes of a file's data or of its checksums (flipped bytes, overwritten or zeroed runs, truncation) never makes a read of that file succeed with different content: the read fails or returns exactly the original bytes. Undamaged files in the same archive keep reading correctly.",
 ["inputs","configurations","fault_sequences"],"every position and kind of damage in a file's stored data or checksums x storage form (single unit or sectors, compressed or raw, encrypted or not) x version",
 "No test damages a checksummed archive (the existing one is an empty body), so nothing notices a checksum that is not compared, compared against the wrong bytes, or only logged.",
 [A,B],
 [("sector checksums","Adler-32 per sector or per single unit",B+" write_file")],
 [("checksum comparison on read",A+" read_file, read_sectored_file")],
 ["Archive::read_file on damaged copies"])
p("C06","Integrity reports tell the truth",
 "For a version 4 archive the reported validity of the header, hash, block, HET and BET digests is true exactly for the structures whose stored bytes are unchanged since the archive was built. The digest a weak signature covers depends on every archive byte outside the signature itself and on no other byte, wherever the signature lies; an archive without a signature is never reported as signed, and a weak signature is reported valid exactly when it verifies. A strong signature is found exactly when it stands whole right behind the archive, every report of the archive's signature gives the same answer, and one that does not verify is reported as invalid.",
 ["inputs","fault_sequences","configurations"],"every damaged byte position in header, tables and data x archive shapes x signature positions relative to read-chunk boundaries",
 "Tests check that a freshly built v4 archive validates; they never damage one, and signature tests use fixed tiny buffers.",
 [A,B,"mopaq/src/crypto/signature.rs"],
 [("v4 header digests","MD5 of each table and of the header",B),("weak signature digest","MD5 of the archive with the signature blanked","mopaq/src/crypto/signature.rs")],
 [("digest generation",B+" write_archive_with_het_bet, finalize_v4_header_md5"),("digest validation",A+" validate_v4_md5_checksums"),("signature hashing","mopaq/src/crypto/signature.rs calculate_mpq_hash_md5")],
 ["Archive::get_info","Archive::verify_signature","calculate_mpq_hash_md5"])
p("C07","Malformed archives produce errors, not crashes or hangs",
 "Opening, listing, inspecting, verifying or reading from any sequence of bytes offered as an archive, and decompressing or parsing any bytes, ends promptly with a value or an error. It never panics, aborts, loops without end, or allocates memory out of proportion to the input and the content it encodes.",
 ["inputs","fault_sequences"],"all byte strings, in particular all header/table/sector fields at boundary and inconsistent values, truncations and bit damage",
 "Tests open two or three obviously invalid files; every length, offset, count and exponent in the format is attacker-controlled.",
 [A,"mopaq/src/header.rs","mopaq/src/tables/hash.rs","mopaq/src/tables/block.rs","mopaq/src/tables/het.rs","mopaq/src/tables/bet.rs","mopaq/src/compression/decompress.rs","mopaq/src/special_files/attributes.rs"],
 [("untrusted sizes and offsets","fields read from the file",A)],
 [("bounds validation before use",A+", mopaq/src/header.rs, mopaq/src/tables/*")],
 ["public reader API on mutated archives (in a limited child process)"])
p("C08","Any well-formed archive is decoded, wherever and however it is laid out",
 "Archives that follow the published format but were laid out by another writer decode to their stored content: preceded by other data or by a user-data block, with files in any order and at positions beyond 4 GiB, with deleted or foreign-language table entries, files stored raw or compressed with the lossless methods, as sectors or as one unit, encrypted with plain or position-adjusted keys (derived from the file's name without its directories).",
 ["inputs","configurations"],"all layouts of the format (offset, user data, file order, gaps, table size and fill, deleted entries, hi-block, storage form)",
 "All tested archives come from the repository's own builder, which uses a single layout; reader and writer errors that cancel out are invisible to it.",
 [A,"mopaq/src/header.rs","mopaq/src/tables/hash.rs","mopaq/src/tables/block.rs"],
 [("archive offset / user data","where the archive starts","mopaq/src/header.rs find_header"),("hi-block table","upper 16 bits of file positions","mopaq/src/tables/block.rs")],
 [("header search","mopaq/src/header.rs find_header"),("position arithmetic",A+" find_file_classic, read_file")],
 ["Archive::open, find_file, read_file, list on independently encoded archives"])
p("C09","Built archives follow the published on-disk format",
 "An archive written by the library is a well-formed archive of its version: header fields describe the actual layout, tables decrypt with the published cipher and keys, every file's table slot is where the published hash places it, and sector offsets, flags and sizes describe the stored bytes; in versions 3 and 4 the extended block table repeats, under each file's 64-bit name hash, the position, sizes and flags of the classic one. An independent decoder recovers exactly the added files from the bytes alone.",
 ["inputs","configurations"],"all builder options x file sets",
 "Tests read archives back with the same library, so a change made consistently to writer and reader (hash, cipher, layout) passes while every other MPQ tool stops working.",
 [B,"mopaq/src/crypto/keys.rs","mopaq/src/crypto/hash.rs","mopaq/src/crypto/encryption.rs"],
 [("header and tables","on-disk structures",B)],
 [("archive writer",B+" write_archive, write_archive_with_het_bet, write_header, write_hash_table, write_block_table")],
 ["bytes of the built archive, decoded by the specification"])
p("C10","C API handles are valid from open to close, and only then",
 "Every handle the C API returns is distinct from all earlier ones and works until it is closed; closing an archive also ends every file opened through it. An operation on a handle that was never issued, was closed, or is of the wrong kind fails with the invalid-handle error and changes nothing, and failed opens issue no handle.",
 ["histories","inputs"],"all sequences of open/close/read/query calls over archives and files, valid and invalid handles, null pointers",
 "The C API crate has no tests of call sequences at all; handle lifetime is a property of histories.",
 [F],
 [("archive and file handle maps","live handles",F),("handle counter","next handle",F)],
 [("global handle tables",F+" ARCHIVES, FILES, NEXT_HANDLE")],
 ["SFileOpenArchive, SFileCloseArchive, SFileOpenFileEx, SFileCloseFile, SFileGetFileInfo ... return values and last error"])
p("C11","C API reads and seeks follow file-position semantics",
 "Reading through a C API file handle delivers exactly the stored bytes at the current position, as many as requested or, at the end of the file, as remain, and advances the position by the number reported; seeking from start, current position or end, with 32- or 64-bit offsets, moves to exactly the requested position, stops at the end of the file when that lies beyond it, and fails without moving when it lies before the start or the origin is unknown. Handles on the same file have independent positions, sizes reported equal the stored size, and output buffers are never written beyond what the call reports.",
 ["histories","inputs"],"all interleavings of reads and seeks (all offsets, methods and lengths) over any number of handles",
 "There are no tests of the C API; position arithmetic over 32-bit halves and signed offsets depends on the history of calls.",
 [F],
 [("file handle position","next byte to deliver",F)],
 [("read and seek",F+" SFileReadFile, SFileSetFilePointer, SFileGetFileSize")],
 ["bytes and return values of SFileReadFile / SFileSetFilePointer / SFileGetFileSize"])
p("C12","Concurrent C API use never deadlocks, mixes up callers or revives handles",
 "Calls made from several threads at once behave as if executed one after the other in some order consistent with each thread's own order: no call blocks forever, no thread sees another thread's last error or language setting, and once an archive has been closed no file opened through it remains usable. This includes callbacks that call back into the API and archive-wide verification.",
 ["schedules","histories"],"all interleavings of API calls on 2-3 threads, including re-entrant callbacks",
 "No test uses two threads or a callback; lock order, lock re-entry and two-step updates only fail under particular schedules.",
 [F],
 [("locks over archive and file maps","mutual exclusion",F),("thread-local last error and locale","per-thread state",F)],
 [("lock scopes in every entry point",F)],
 ["recorded call/return histories of threads driving the C API"])
p("C13","Extraction writes only inside the chosen target directory",
 "Whatever names an archive contains, command-line extraction of a whole archive creates or modifies files only beneath the chosen target directory (or the current directory when none is given), and an archive entry whose name cannot be placed there is reported and skipped without keeping the others from being extracted.",
 ["inputs","configurations"],"all entry names (parent references, absolute paths, both separators, empty and dot components, very long names) x path-preserving option x target",
 "CLI tests create and list archives with harmless names; hostile names are never extracted.",
 ["storm-cli/src/commands/file.rs"],
 [("output path","target directory joined with an entry-controlled name","storm-cli/src/commands/file.rs extract")],
 [("output path construction","storm-cli/src/commands/file.rs extract")],
 ["file tree around the target directory before and after storm-cli file extract"])
p("C14","Command-line create, list, extract and verify agree with the source files",
 "Creating an archive from a file or directory tree and extracting it with paths preserved reproduces every selected file byte for byte at the same relative place, for every version, lossless compression and sector size offered (for names a name list can carry; ignore patterns and recursion select the files); extracting one file puts it into the given file or directory; listing and searching report exactly the stored names that match, and file information the stored size. Verification succeeds exactly when the archive opens, every listed file can be read when contents are checked, and all stored digests are intact; the exit status tells success from failure. Settings stored with the configuration commands are shown and used by later creations, and invalid ones are refused without changing any.",
 ["inputs","configurations","fault_sequences"],"all directory trees x create options x selection patterns x damage",
 "CLI tests check that create exits 0 and that help texts appear; no test extracts and compares, and none verifies a damaged archive.",
 ["storm-cli/src/commands/archive.rs","storm-cli/src/commands/file.rs","storm-cli/src/main.rs"],
 [("archive names of files","relative paths","storm-cli/src/commands/archive.rs add_directory_to_archive")],
 [("tree walk and option mapping","storm-cli/src/commands/archive.rs create, verify; storm-cli/src/main.rs"),("listing and search filters","storm-cli/src/commands/file.rs")],
 ["storm-cli exit status, standard output and extracted tree"])
p("C15","Decompression undoes compression, for every method and size",
 "For every lossless method the library can compress with, decompressing the compressed form of any data with its true size returns exactly that data; data that does not shrink is returned unchanged, and a compressed form always carries its method and is strictly smaller than the data. Audio compression preserves length for whole samples and reproduces each sample to within a small fraction of its step, the decoder following the ADPCM code used in MPQ archives, and methods or combinations without a compressor are refused.",
 ["inputs","configurations"],"all byte strings x all 256 method values x declared sizes",
 "Tests try a few patterns per algorithm; run-length boundaries, one-byte gains, empty and tiny inputs, and method combinations are not enumerated.",
 ["mopaq/src/compression/compress.rs","mopaq/src/compression/decompress.rs","mopaq/src/compression/algorithms/sparse.rs","mopaq/src/compression/algorithms/adpcm.rs","mopaq/src/compression/algorithms/pkware.rs","mopaq/src/compression/algorithms/lzma.rs"],
 [("method byte","which decoder applies","mopaq/src/compression/methods.rs")],
 [("method dispatch","mopaq/src/compression/compress.rs, decompress.rs")],
 ["compression::compress","compression::decompress"])
p("C16","Name hashes and the block cipher are the published ones",
 "The name hash of every string and every hash type, and the block cipher for every non-zero key and every data length, are exactly the published MPQ functions (key zero means not encrypted); decryption inverts encryption for every key, length and content, and hashing ignores ASCII case and the slash direction. The 64-bit name hash of the extended tables is the one-at-a-time hash the format documentation gives, of the name in lower case with backslashes, at every length. The command-line tool's hash command prints the same name hashes.",
 ["inputs"],"all strings x hash types; all keys x block lengths (including 0-3 trailing bytes) x contents",
 "Tests compare a few vectors; the claim is equality of functions on all inputs.",
 ["mopaq/src/crypto/hash.rs","mopaq/src/crypto/keys.rs","mopaq/src/crypto/encryption.rs","mopaq/src/crypto/decryption.rs"],
 [("encryption table","1280 derived words","mopaq/src/crypto/keys.rs")],
 [("hash and cipher","mopaq/src/crypto/*")],
 ["hash_string, encrypt_block, decrypt_block, decrypt_dword, ArchiveBuilder::encrypt_data"])
p("C17","Attribute and name-list files parse to exactly what they contain",
 "Parsing an attributes file yields, for every file index and exactly the recorded kinds of attribute, the recorded values, and writing them again reproduces the parsed content; an attributes file too short for what it declares is refused. Parsing a name list yields exactly its non-empty, non-comment entries in order, whatever line endings and blanks surround them.",
 ["inputs","configurations"],"all attribute flag sets x block counts (all residues mod 8) x values; all list texts",
 "Tests use one or two block counts and flag sets; patch-bit packing and truncated arrays depend on count mod 8 and flag combination.",
 ["mopaq/src/special_files/attributes.rs","mopaq/src/special_files/listfile.rs",A],
 [("attributes","per-block metadata arrays","mopaq/src/special_files/attributes.rs")],
 [("parser and serializer","mopaq/src/special_files/attributes.rs parse, to_bytes; listfile.rs parse_listfile")],
 ["Attributes::parse, to_bytes, get_file_attributes, Archive::load_attributes; parse_listfile"])
p("C18","Reading is repeatable, order-independent and read-only",
 "Any sequence of opens, lookups, listings, reads, inspections and verifications on an archive, in any order, repeated, through any number of open handles, with tables loaded at once or on first use, gives each call the same answer it would give as the first call on a fresh handle. No such operation changes the archive file.",
 ["histories","configurations"],"all histories of reader operations x open options x handles",
 "Each test makes one or two calls per opened archive; stale reader positions, caches and deferred loading only matter across calls.",
 [A],
 [("reader position and loaded tables","mutable state of an open archive",A)],
 [("explicit seeks before every read; deferred table loading",A)],
 ["results of call sequences on one Archive compared with the specification; archive bytes before and after"])
p("C19","C API queries, extraction and verification report what the archive holds",
 "Through the C API, a name is reported present exactly when a file is stored under it; enumeration calls back with every listed name that matches the mask, each once, until the callback declines; extraction writes exactly the stored bytes to the given path and writes nothing when the file is absent or damaged. File verification succeeds exactly when the file exists and its content matches every recorded checksum of the requested kinds, and archive verification fails exactly when the signature is bad or a listed file fails, as far as requested. Creating an archive honours the requested disposition, and every failure leaves a last error that tells why.",
 ["histories","inputs","configurations"],"all sequences of query, enumeration, extraction, verification and creation calls x archives with intact, damaged and mis-recorded files x flags, masks and dispositions",
 "The C API's tests only pass null pointers; what the calls report about real archives, damaged files and recorded checksums is not tested.",
 [F],
 [("open archive","what queries are answered from",F)],
 [("queries, extraction, verification, creation",F+" SFileHasFile, SFileEnumFiles, SFileExtractFile, SFileVerifyFile, SFileVerifyArchive, SFileCreateArchive, SFileGetFileInfo, SFileGetArchiveName")],
 ["return values, outputs and last error of the calls; files written by extraction"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
