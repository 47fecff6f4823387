#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the text is easy to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     hook_needed=None)))

p("C01", "Variable-length integers are exact, minimal, and over-long input is refused",
  "Encoding any unsigned 64-bit number appends exactly its minimal base-128 form, least significant group first, and leaves the bytes already written untouched. Decoding reads exactly the bytes of one number starting at the given position, yields exactly the number they denote and advances the position by exactly that many bytes, while a truncated number or one that does not fit in 64 bits is refused rather than decoded to something else. The zigzag mapping between signed and unsigned 64-bit numbers is the standard one and is a bijection in both directions.",
  ["inputs"], "every 64-bit value, every buffer content and every start position",
  "No test touches the integer codec; 2^64 values and all malformed buffers are beyond any sample.",
  ["internal/pb/varint.go"], [("varint encode/decode, zigzag", "internal/pb/varint.go")],
  ["bytes appended", "value and new position returned", "panic on malformed input"])

p("C02", "Packed number lists decode to exactly the list that was encoded",
  "For every list of numbers of each supported kind (signed, unsigned, zigzag; 32 and 64 bit; plain, delta-coded, zero-terminated delta-coded) the encoder produces the standard packed protobuf encoding of that list, and the decoder turns such bytes back into exactly that list, in order and with the same length, including negative numbers and deltas that wrap. A decoder handed a length-prefixed list consumes exactly that list, and the zero-terminated form stops at the terminator and does not depend on what follows it (for lists with no leading zero and no two equal neighbours).",
  ["inputs"], "every list of every length, every value, every following byte",
  "The list codecs have no tests; correctness is a statement about lists of unbounded length.",
  ["internal/pb/32.go", "internal/pb/64.go"], [("packed encoders and decoders", "internal/pb/32.go, internal/pb/64.go")])

p("C03", "Length-prefixed fields carry their exact length; reading and skipping agree",
  "Whenever a nested field is written, its length prefix denotes exactly the number of payload bytes that follow it, everything written earlier is left unchanged, and a payload too large for the prefix space reserved for it stops the program instead of being written with a wrong length. Reading a length-prefixed field returns exactly the declared bytes and moves to the byte after them, and skipping one moves to exactly the same place. A declared length that runs past the end of the data, or is negative, is refused by both.",
  ["inputs"], "every payload length, every field number, every surrounding content, every declared length",
  "No test exercises framing; the limits sit at payload sizes of 127/16383/2097151/268435455 and at malformed lengths.",
  ["internal/pb/embed.go", "internal/pb/buffer.go"], [("reserved-prefix embedding", "internal/pb/embed.go"), ("length-prefixed read/skip/write", "internal/pb/buffer.go")])

p("C04", "OSM messages are read back exactly as they were written",
  "Every message kind the tools write (file block header, blob, primitive block, primitive group, string table, dense nodes, way, relation) is, when read again, equal in every field the tools keep to what was written, and the bytes written carry each field under its OSM PBF field number. The reader accepts the fields in any order and any repetition allowed by the format: a later occurrence of a single-valued field replaces the earlier one, repeated fields accumulate in order, metadata the tools do not use is passed over without disturbing anything else, and unknown fields are refused. Defaults (granularity 100, date granularity 1000, offsets 0) apply exactly when the field is absent.",
  ["inputs"], "every message value and every order and repetition of fields",
  "Only the string table has a read and a write test, each on one literal; every other message is untested.",
  ["internal/t/blob.go", "internal/t/blob_header.go", "internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/dense_nodes.go", "internal/t/way.go", "internal/t/relation.go", "internal/t/string_table.go"],
  [("message readers and writers", "internal/t/*.go")])

p("C05", "Sections a tool does not decode pass through byte for byte",
  "When a tool chooses not to decode the string table, dense nodes, ways or relations of a block, reading that block and writing it again reproduces the bytes of each such section unchanged, the right number of times and in order, while the decoded sections are written from their decoded values. Choosing to skip one kind of section has no effect on how the others are read.",
  ["inputs", "configurations"], "every block content and every combination of skipped sections",
  "Skipping is untested; 16 combinations of skip choices times every block content.",
  ["internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/reader.go"],
  [("raw section capture and re-emission", "internal/t/primitive_block.go, internal/t/primitive_group.go")])

p("C06", "Location codes are a bijection, are negative, and decode to their coordinates",
  "Interleaving any pair of 32-bit coordinates and de-interleaving the result gives the pair back, and de-interleaving then interleaving any 64-bit code gives the code back, with the first coordinate in the even and the second in the odd bits. The location code stored for a node with longitude and latitude in range is always a negative number, hence never zero and never mistaken for an id, and decoding it yields exactly that longitude and latitude in units of 1e-7 degrees.",
  ["inputs"], "all 2^64 coordinate pairs",
  "The one test samples ten million random pairs of 2^64 and never looks at the location form.",
  ["internal/morton/morton.go", "cmd/nodeindex/indexer/nodeindexer_worker.go"],
  [("interleave table, encode, decode, location decode", "internal/morton/morton.go")])

p("C07", "Node lookup returns exactly the stored location, whatever the hint",
  "In a well-formed node index, looking up an id that lies in one of the stored ranges returns the location stored for precisely that id and reports it found unless that slot is a gap; any id outside every range, or above the highest id of the pass, is reported not found. The answer never depends on the hint passed in, and the hint handed back is always safe to pass to the next lookup.",
  ["inputs", "histories"], "every index of ascending disjoint ranges, every id, every hint, every sequence of lookups",
  "Node lookup has no tests; it is a statement about every sorted table, id and hint.",
  ["internal/nodeindex/nodesubindex.go", "internal/nodeindex/index_element.go"],
  [("binary search with hint", "internal/nodeindex/nodesubindex.go")])

p("C08", "Way lookup returns exactly the stored node locations, whatever the hint",
  "In a well-formed way index, looking up the id of a stored way returns exactly the list of locations stored for that way and reports it found, and any other id is reported not found. The answer never depends on the hint passed in, and the hint handed back is always safe to pass to the next lookup.",
  ["inputs", "histories"], "every index with ascending way ids, every id, every hint",
  "Way lookup has no tests.",
  ["internal/wayindex/subindex.go", "internal/pb/64.go"],
  [("binary search with hint, zero-terminated list decode", "internal/wayindex/subindex.go")])

p("C09", "The passes over a node index together cover every entry exactly once",
  "For every node index and every number of passes of at least one, the entries offered by pass 0, pass 1, ... up to the last pass, taken in order, are exactly the entries of the index: none is dropped, repeated or reordered, even when there are more passes than locations or a single range spans several passes. The highest id of each pass is the last id of its last entry (ids above it are deferred to later passes), an empty pass finds nothing, and every pass sees the full location data.",
  ["inputs", "configurations"], "every index, every pass number and count",
  "Splitting has no tests and rounding errors only show for counts that do not divide evenly.",
  ["internal/nodeindex/nodeindex.go"], [("pass splitting", "internal/nodeindex/nodeindex.go SubIndex")])

p("C10", "The passes over a way index together cover every way exactly once",
  "For every way index and every number of passes of at least one, the ways offered by pass 0, pass 1, ... up to the last pass, taken in order, are exactly the ways of the index: none is dropped, repeated or reordered, even when there are more passes than data or the index is empty. The highest id of each pass is the id of its last way, an empty pass finds nothing, and every pass sees the full location data.",
  ["inputs", "configurations"], "every index, every pass number and count",
  "Splitting has no tests and rounding errors only show for sizes that do not divide evenly.",
  ["internal/wayindex/wayindex.go"], [("pass splitting", "internal/wayindex/wayindex.go SubIndexWithScaledPass")])

p("C11", "Packed index entries hold their fields losslessly or are refused",
  "A node index entry gives back exactly the count and offset it was built from, and a way index entry gives back exactly the way id and offset it was built from, for every value that fits the documented bit widths (24-bit count, 40-bit offset; 31-bit way id, 33-bit offset). A value that does not fit, including a negative one, is refused instead of silently corrupting the other field. The first id, last id, membership test and slot number derived from a node index entry agree with its start id, count and offset.",
  ["inputs"], "every pair of 64-bit values",
  "No tests; the interesting values sit exactly on the bit-width boundaries.",
  ["internal/nodeindex/count_offset.go", "internal/nodeindex/index_element.go", "internal/wayindex/indexdata.go"],
  [("packing and unpacking", "internal/nodeindex/count_offset.go, internal/wayindex/indexdata.go")])

p("C12", "Building a node index stores every node's location in its own slot",
  "For every block of dense nodes with ascending ids, the indexing step produces ranges and a location list such that each node of the input lies in exactly one range, the location slot belonging to its id holds the code of that node's coordinates, and every other slot in a range holds the gap value 0; the ranges together have exactly as many slots as there are locations. Writing any sequence of such blocks gives each range the running offset of its locations, so that looking up any node of the input in the finished file yields its location and looking up any other id finds nothing.",
  ["inputs", "histories"], "every ascending id sequence (any gaps, any start id including 0), any split into blocks",
  "The indexing step has no tests; gap handling, block boundaries and extreme ids are unsampled.",
  ["cmd/nodeindex/indexer/nodeindexer_worker.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "internal/nodeindex/count_offset.go"],
  [("range building", "cmd/nodeindex/indexer/nodeindexer_worker.go"), ("offset accumulation and file layout", "cmd/nodeindex/indexer/nodeindexer_writer.go")])

p("C13", "Building a way index stores every way's locations at its aligned offset",
  "For every block of ways, the indexing step emits one entry per way, in order, carrying that way's id, and at the aligned offset named by the entry the location data holds exactly the way's references with leading zeros and consecutive repeats removed, zero-terminated. Every way's data starts on the configured alignment, and writing any sequence of blocks rebases the offsets so that in the finished file each entry still points at its own way's data.",
  ["inputs", "histories", "configurations"], "every list of ways, every alignment shift, any split into blocks",
  "The indexing step has no tests.",
  ["cmd/wayindex/wayindexer/wayindexer_worker.go", "cmd/wayindex/wayindexer/wayindexer_writer.go"],
  [("entry and location emission, padding", "cmd/wayindex/wayindexer/wayindexer_worker.go"), ("offset rebasing", "cmd/wayindex/wayindexer/wayindexer_writer.go")])

p("C14", "Output blocks leave in input order, each exactly once",
  "Whatever order the worker threads finish in, the writing step receives every block exactly once and in the order the blocks had in the input file. A block that never arrives although a later one did is detected and stops the program rather than being skipped silently.",
  ["schedules", "histories"], "every arrival order of every number of blocks, every number of workers",
  "No test runs the pipeline; order depends on thread scheduling.",
  ["internal/pbf/reorder.go", "internal/pbf/process.go"], [("reorder buffer", "internal/pbf/reorder.go")])

p("C15", "The input file is cut into exactly its blocks",
  "For every well-formed input file, the workers receive one work item per file block, numbered 0, 1, 2, ... in file order, each with the type named by the block's header and exactly the bytes of the block's body; together headers and bodies cover the file with nothing skipped or read twice. A block of any type other than the two the format defines stops the program.",
  ["inputs"], "every sequence of blocks of every size",
  "No test reads a file.",
  ["internal/pbf/process.go", "internal/t/blob_header.go"], [("block splitting loop", "internal/pbf/process.go")])

p("C16", "Decompressing keeps every block's content, type and order",
  "For every input file, the decompressed file contains the same sequence of blocks with the same types, each holding exactly the uncompressed content of the original block in uncompressed form and a header that frames it correctly. This holds for blocks stored raw, blocks stored compressed, and blocks whose content is empty.",
  ["inputs"], "every block content, stored raw or compressed",
  "No test runs the tool.",
  ["cmd/decompress/decompressor/decompressor_worker.go", "cmd/decompress/decompressor/decompressor_writer.go", "internal/t/blob.go"],
  [("re-encode and frame", "cmd/decompress/decompressor/decompressor_worker.go")])

p("C17", "Rewriting replaces way node ids by locations and changes nothing else",
  "After all passes, every way's reference list has the same length and order as before, each reference to a node present in the index is replaced by that node's location code, references already converted are kept, and references to unknown nodes are kept as ids. Way ids and tags, string tables, dense nodes, relations, block settings, block order and block types are unchanged, blocks without ways are passed through untouched, and the result is the same for every number of passes.",
  ["inputs", "configurations"], "every file, every index, every number of passes",
  "No test runs the tool.",
  ["cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/rewritenodes/rewriter/noderewriter_writer.go", "cmd/rewritenodes/rewritenodes.go"],
  [("reference replacement", "cmd/rewritenodes/rewriter/noderewriter_worker.go")])

p("C18", "Tag filtering drops exactly the listed tags and untagged nodes",
  "A node tag (with a non-empty key) is removed exactly when its key is one of the listed keys or starts with one of the listed prefixes; a node is dropped exactly when no tag remains; every remaining node keeps its id, its position at the file's default resolution, its remaining tags and its order. Ways and relations keep their ids, tags, references, roles, members and order, and every input block yields exactly one output message (a filler that is not written when nothing remains).",
  ["inputs"], "every block content and every tag key",
  "No test runs the tool.",
  ["cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/tagfilter/tagfilterer/tagfilterer_writer.go"],
  [("keepTag and filter loop", "cmd/tagfilter/tagfilterer/tagfilterer_worker.go")])

p("C19", "String tables start with the empty string and map strings to indexes one-to-one",
  "A built string table has the empty string at index 0 and contains every added string exactly once and nothing else, ordered by falling use count with ties in byte order, whatever strings (the empty one included) were added how often. The index given out for a string is the position of that string in the table, and asking for a string that was never added is refused. Converting a tag set to index lists gives, in key order, exactly the indexes of its keys and values.",
  ["inputs", "histories"], "every sequence of added strings and tag sets",
  "The tests add at most a handful of non-empty strings.",
  ["internal/t/string_table_builder.go"], [("frequency counting, sort, index", "internal/t/string_table_builder.go")])

p("C20", "Relation index extraction lists every relation with exactly its way members",
  "For every block, the extraction step emits, in order, each relation's id, the number of its way members, and the negated id of each way member in member order; node and relation members are left out. The writing step concatenates the records of all blocks in order without loss.",
  ["inputs"], "every list of relations and members",
  "No test runs the tool.",
  ["cmd/relindex/relindexerinit/relindexer_worker.go", "cmd/relindex/relindexerinit/relindexer_writer.go"],
  [("record emission", "cmd/relindex/relindexerinit/relindexer_worker.go")])

p("C21", "Resolving a relation index replaces each way by its locations, in any passes",
  "Resolving a relation index replaces each unresolved way that the pass covers by its id, its number of locations and its locations, keeps already resolved ways and relation headers unchanged and in order, and leaves ways outside the pass unresolved until the last pass, which gives an unknown way a length of 0. The final file is the same for every number of passes, and a file without relations or an index without ways is handled.",
  ["inputs", "configurations"], "every relation file, every way index, every number of passes",
  "No test runs the tool.",
  ["cmd/relindex/relindex.go"], [("pass rewriting", "cmd/relindex/relindex.go rewrite")])

p("C22", "Entity counts and maxima are exact for any number of workers",
  "The reported numbers of blocks, nodes, ways, way references and relations are exactly the totals over the file, and the reported maxima are exactly the largest node id, way id, relation id and way length, independent of how the blocks are distributed over workers and in which order the workers finish.",
  ["inputs", "schedules"], "every file, every distribution over workers, every interleaving of the final merge",
  "No test runs the tool; the merge is concurrent.",
  ["cmd/entitycount/entitycount.go"], [("local accumulation and atomic merge", "cmd/entitycount/entitycount.go")])

p("C23", "Output files receive every byte in order, even when writes are short",
  "Writing a byte buffer delivers all of its bytes exactly once and in order, even when the operating system accepts only part of it at a time, and stops the program on an error or when no progress is made. Writing a list of 64-bit numbers delivers their little-endian bytes completely or stops the program. Copying moves exactly the bytes read, and an index file's header is written at its start only after all entries and location data are in place.",
  ["inputs", "fault_sequences"], "every buffer, every pattern of short writes and errors",
  "No test writes a file; short writes are never provoked.",
  ["internal/iio/wrappers.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go"],
  [("write loop", "internal/iio/wrappers.go")])

p("C24", "Borrowed buffers have the right size and owner; mapped data is never pooled",
  "A buffer taken from the pool has exactly the requested length whatever sizes were requested before, and is returned at most once by its taker. Buffers that merely view the input file are never put into the pool. No tool reads or sends out the bytes of a pooled buffer after giving it back.",
  ["inputs", "schedules", "histories"], "every sequence of sizes and every interleaving of borrowers",
  "No test uses the pool.",
  ["internal/pool/bytebuffer.go", "internal/t/blob.go"], [("pool get/put, borrowed flag", "internal/pool/bytebuffer.go")])

p("C25", "Raw views of numbers and bytes show the same memory with the right length",
  "Viewing a byte buffer as 64-bit numbers, or 64-bit numbers as bytes, gives a view of the same memory whose length is the source length divided or multiplied by eight. The generic byte view yields len/elementsize elements, never has spare capacity (so appending to it never overwrites the underlying memory), and refuses a target that is not a pointer to a slice.",
  ["inputs"], "every length, capacity and element size",
  "The one test uses a single buffer and element type.",
  ["internal/iunsafe/slices.go"], [("slice header views", "internal/iunsafe/slices.go")])

p("C26", "Blocks rebuilt from entities describe exactly those entities",
  "Building a block from any lists of nodes (with non-empty tag keys), ways and relations and converting the block back gives the same entities: same ids, same tags (including tags with an empty value), same references, members, roles and member types, same order, and node positions equal at the default resolution of 100 nanodegrees. Converting a block to entities applies the block's granularity and offsets to every position and pairs each key with its own value, and nodes without tags in a block with tags get no tags.",
  ["inputs"], "every set of entities and tags",
  "No test converts entities.",
  ["internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go", "internal/t/primitive_block.go", "internal/t/dense_nodes.go"],
  [("entity conversion", "internal/t/primitive_block_*.go, internal/t/dense_nodes.go GetKeyVals")])

p("C27", "The worker list shows exactly the workers that are running",
  "After any sequence of workers starting and stopping, the list of tracked workers contains exactly those started and not yet stopped, in start order; stopping one that is not tracked changes nothing, stopping one removes exactly one entry, and every start or stop changes the version number, not before the list has changed, so that a display which takes the list again whenever the number changes ends with the current one. A list handed out is a snapshot that later starts and stops do not modify.",
  ["histories", "schedules"], "every sequence of starts and stops",
  "No test uses the tracker.",
  ["internal/tracker/worker_tracker.go"], [("locked worker list", "internal/tracker/worker_tracker.go")])

p("C28", "Finding reports exactly the requested entities; each block is counted once",
  "The find tool reports an entity of the file exactly when its id is one of the requested ids, once per occurrence, and the block counting tool reports exactly the number of file blocks, for any number of workers.",
  ["inputs", "schedules"], "every file, every id list, every distribution over workers",
  "No test runs the tools.",
  ["cmd/entityfind/entityfind.go", "cmd/blockcount/blockcount.go"], [("id match", "cmd/entityfind/entityfind.go"), ("atomic count", "cmd/blockcount/blockcount.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
