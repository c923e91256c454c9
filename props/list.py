prop("D04", "DNS answers are rate-limited per source",
 """In any one-second window the DNS server's rate limiter grants at most eight answers to the queries that share one
 limiter bucket, and all queries from one source (an IPv4 address, or an IPv6 /64 whatever the interface identifier or
 port) share a bucket. It never refuses before the bucket's allowance for the current window is used up, a query charges
 no bucket but its own, and with no buckets configured nothing is limited. (The bucket keeps only the low five bits of the window number, so
 windows 32 seconds apart are the same window to it.)""",
 ["inputs", "histories"], "every table size and content, every source address, every clock value, every history of queries",
 "test_rrl samples three addresses at whole seconds with one table size; the guarantee is over all histories and addresses",
 ["server/dns/rrl.c"], [("rrl_check", "server/dns/rrl.c:rrl_check"), ("hash_addr", "server/dns/rrl.c:hash_addr")])

prop("K01", "kvpsync packets: exact wire format, lossless round trip, safe parse",
 """Reading a kvpsync update or ack datagram of any length and content accepts it exactly when the documented layout fits
 in it, yields the fields that are on the wire, and touches no memory outside the datagram. Every valid update and ack is
 written in the documented layout, never longer than the documented maximum of 529 bytes, and reads back equal; an
 update of unknown type, or a START whose update number is not 1, is neither written nor accepted.""",
 ["inputs"], "every datagram of every length; every update and ack value; every output buffer size",
 "test_pkts round-trips a handful of packets and truncations; hostile datagrams are unbounded",
 ["server/libkvpsync/pkts.c"], [("kvpsync_update_read/write", "server/libkvpsync/pkts.c"), ("kvpsync_ack_read/write", "server/libkvpsync/pkts.c")])

prop("E01", "base64url is exactly RFC 4648, unpadded, and round-trips",
 """base64url-encoding any byte string yields exactly the RFC 4648 section 5 encoding without padding, and decoding that
 encoding yields the original bytes. Decoding accepts exactly the strings that are such an encoding: a byte outside the
 alphabet, a length of 1 modulo 4, or non-zero dangling bits are all refused.""",
 ["inputs"], "every byte string of every length, both directions",
 "test_b64url has a few vectors; ACME signatures depend on every length and every byte value",
 ["libacme/b64url.c"], [("do_bin2b64url", "libacme/b64url.c"), ("b64url2bin_quiet", "libacme/b64url.c")])

prop("E02", "Number strings are read exactly or refused",
 """Every string-to-integer conversion (unsigned and signed, every width, base 8, 10 and 16) accepts exactly the strings
 that are an optional sign and one or more digits of the base whose value fits the target type, and then yields exactly
 that value; anything else (an empty string, a lone sign, any other byte, a value out of range however many digits it
 has, a minus sign for an unsigned type, another base) is refused with a parameter error and leaves zero. Whether a
 signed type accepts "-0" is left open.""",
 ["inputs"], "every byte string of every length, every target type",
 "test_cvt tries values next to each limit; UIDs, sizes and offsets from peers pass through these functions with arbitrary content",
 ["libdstr/cvt.c"], [("parse_integer", "libdstr/cvt.c"), ("dstr_to*_quiet", "libdstr/cvt.c")])

prop("E03", "UTF-8 and UTF-16 are decoded strictly, in any pieces, and encoded exactly",
 """Decoding accepts exactly the well-formed strings of RFC 3629 (UTF-8) and RFC 2781 (UTF-16, either byte order or with
 a byte order mark): overlong forms, surrogates, values above U+10FFFF, stray or missing continuation units, and strings
 cut short are refused, and the code points delivered are the ones the standard assigns, each before any later fault.
 The streaming decoders deliver the same code points wherever the input is cut into pieces. Encoding a code point yields
 exactly its standard encoding, a value that is not a code point is refused with nothing written, and an error of the
 consumer is passed on.""",
 ["inputs"], "every byte string of every length, every resumption state, every code point",
 "test_unicode has a table of samples; JSON and HTTP text from the network is arbitrary",
 ["libdstr/unicode.c"], [("utf8_decode_stream", "libdstr/unicode.c"), ("utf16_decode_stream", "libdstr/unicode.c"), ("utf8_encode_quiet/utf16_encode_quiet", "libdstr/unicode.c")])

prop("N01", "IMAP mirror: concurrent sessions converge and never lose a message",
 """Whatever the interleaving of client sessions, upstream updates and restarts, every message present upstream is
 eventually downloaded once, decrypted once, and shown to every session with a consistent sequence numbering.""",
 ["schedules", "histories", "fault_sequences"], "all interleavings of up/dn connections, all upstream histories",
 "tests drive single sessions against a scripted server",
 ["libimaildir/imaildir.c", "libimaildir/up.c", "libimaildir/dn.c"], [("imaildir_t updates", "libimaildir/imaildir.c")],
 na="a convergence property over schedules of event-driven C with heap-shared state and libuv callbacks; function contracts for a C verifier without separation logic cannot state it, and the eventuality is not a safety postcondition")
prop("N02", "Crash consistency of the local mail store",
 """After a crash at any point, reopening the mail store loses no acknowledged change and resurrects no deleted message.""",
 ["crash_points"], "every crash point between file-system operations",
 "no test crashes the process",
 ["libimaildir/log_file.c", "libimaildir/imaildir.c", "libdstr/fileops.c"], [("imaildir_log", "libimaildir/log_file.c")],
 na="needs a file-system model with crash semantics (what fsync/rename guarantee); contracts on the C functions alone cannot decide it, and modelling the file system is a different technique")
prop("N03", "TLS: only authenticated peers, no plaintext before negotiation",
 """No credential or mail byte is sent to a peer whose certificate was not verified for the expected host name.""",
 ["inputs", "fault_sequences"], "every peer behaviour during the handshake",
 "tests use a fixed test CA and a few bad hosts",
 ["libduvtls/libduvtls.h", "libcrypto/networking.c"], [("ssl context setup", "libcrypto/networking.c")],
 na="the guarantee lives inside OpenSSL, whose contracts could only be assumed; what remains in the repository is configuration calls")
prop("N04", "SQL layer: account invariants hold across stored procedures",
 """No sequence of account operations leaves a user with an alias, device or token that belongs to another account.""",
 ["histories"], "every sequence of API calls against the database",
 "test_smsql samples a few sequences against a live server",
 ["server/libsmsql.c"], [("stored procedures", "server/migrations")],
 na="the state and its invariants are in MySQL stored procedures and constraints, outside C and outside any deductive verifier installed here")

prop("D01", "DNS queries of any content are parsed safely and exactly",
 """Parsing a UDP datagram of any length and content terminates, touches no byte outside the datagram, and accepts a
 datagram with one question exactly when it is well-formed: a whole header, a name of labels of at most 63 bytes and 255
 in all (compression pointers allowed, but not two in a row), every resource record of the three sections inside the datagram, and
 at most one OPT record, unnamed and exactly filled by its options. What it then reports (header, question, labels of the
 name counted from either end, the requestor's packet size) is what the datagram says.""",
 ["inputs"], "every datagram of up to 65535 bytes",
 "test_parse has a dozen captured packets; anyone on the internet can send any bytes to this port",
 ["server/dns/parse.c"], [("parse_pkt", "server/dns/parse.c"), ("parse_name/labels_next/labels_read_reverse", "server/dns/parse.c"), ("find_edns/parse_edns/rrs_next", "server/dns/parse.c")])

prop("D02", "Every DNS answer is the right one, byte for byte",
 """A datagram is answered exactly when it is a well-formed standard query with one IN-class question of nonzero type for a name at or
 below user.splintermail.com, whatever the case of its letters; anything else gets silence. The answer is exactly: NOTIMP
 for types the server does not implement; SOA, NS or CAA at the zone; A, AAAA or CAA at a user name; at
 _acme-challenge under a user name the secret as TXT when the key-value store has one, SERVFAIL when the store is not sure, and the no-record answer with SOA when it is
 sure there is none; NXDOMAIN with SOA below that; the no-record answer otherwise. The store is asked only for challenge names and
 with exactly the user's label. Every answer repeats the id, the recursion-desired bit and the question
 (pointers resolved), carries an OPT record exactly when the query did, and is never longer than 512 bytes or what the requestor and the caller's buffer allow.""",
 ["inputs"], "every datagram, every state of the store, every secret of up to 255 bytes",
 "test_dns checks a few names and record types; combinations of case, compression, EDNS size, type and store state are not sampled",
 ["server/dns/dns.c", "server/dns/write.c"], [("handle_packet", "server/dns/dns.c"), ("sort_pkt", "server/dns/dns.c"), ("positive_resp/negative_resp", "server/dns/dns.c"), ("write_qstn and the record writers", "server/dns/write.c")])

prop("C01", "Growable byte buffers never overflow, and every operation on them is exact",
 """For every buffer (heap, or fixed-size memory of the caller) and every operation on it (create, grow, append a buffer, a
 character or a run of characters, copy, NUL-terminate, drop a prefix, take a view, free): nothing is read or written
 outside the buffer's current memory; when the operation succeeds the length is the exact sum and every byte is the one
 the operation's description says (kept bytes stay as they were); when it fails because memory runs out or because a
 fixed-size buffer is too small, it says so and the buffer still holds exactly what it held. A fixed-size buffer is never
 reallocated or freed, and a heap buffer has room for what was asked whenever growing it succeeds.""",
 ["inputs", "fault_sequences"], "every buffer state, every operand of every length, every allocation failure",
 "the tests append small literals to small buffers and never fail an allocation",
 ["libdstr/common.c", "libdstr/common.h"], [("dstr_grow_quiet/dstr_append_quiet/dstr_copystrn", "libdstr/common.c"), ("dstr_leftshift/dstr_sub2", "libdstr/common.c")])

prop("C02", "String comparison and search are exact",
 """Comparing two byte strings yields zero exactly when they are equal, and otherwise a value whose sign is the
 lexicographic order of their characters (of type char; the end of a string ranks just below NUL), so that it is one total order; the
 case-insensitive forms are the same with each ASCII letter's case ignored. Counting a pattern in a string terminates and yields exactly the number of
 non-overlapping occurrences found from the left; the contains, begins-with and ends-with tests are true exactly when the
 pattern occurs, starts or ends the string.""",
 ["inputs"], "every pair of byte strings of every length, including empty ones and NUL bytes",
 "the tests compare a few literals; these functions decide every table lookup, sort and protocol keyword",
 ["libdstr/common.c"], [("dstr_cmp2/dstr_icmp2", "libdstr/common.c"), ("dstr_count2", "libdstr/common.c"), ("dstr_beginswith2/dstr_endswith2", "libdstr/common.c")])

prop("C03", "Intrusive list operations are exact",
 """Adding an element at either end, joining a list onto either end of another, taking the first or last element and
 removing an element from wherever it is leave exactly the elements that should be there, in the right order, with both
 link directions consistent, and the element taken out belongs to no list; removing an element that is in no list, or
 taking from an empty list, changes nothing. Taking one element from each of several lists at once takes all or, when any list is
 empty, none.""",
 ["histories"], "lists of every length (each operation depends only on the neighbours it touches), every sequence of operations",
 "test_link runs one scripted sequence; every queue of connections, messages and events is one of these lists",
 ["libdstr/link.c"], [("link_list_append/prepend/pop/remove", "libdstr/link.c"), ("link_list_pop_first_n", "libdstr/link.c")],
 note="the multi-list takes and the element count are bounded stand-ins (2 lists of up to 4 elements; up to 5 elements); everything else is proved")

prop("C04", "Secrets are erased before their memory is given up",
 """Every operation meant for sensitive buffers (zeroize, erase-and-free, grow, append) overwrites the whole of the old memory,
 not just the used part, before that memory is freed or replaced, also when the buffer had been longer before; and it keeps the same contents,
 lengths and failure behaviour as its ordinary counterpart.""",
 ["inputs", "fault_sequences"], "every buffer state, every allocation failure",
 "memory that has been freed cannot be inspected by a test; only what is written before the call to free can be",
 ["libdstr/common.c", "libdstr/common.h"], [("dstr_zeroize/dstr_free0", "libdstr/common.c"), ("dstr_grow0/dstr_append0", "libdstr/common.c")])

prop("E05", "base64 and hex are exact, in lines and in pieces, and round-trip",
 """Encoding any byte string as base64 yields exactly the RFC 4648 section 4 encoding; in lines (of 64 characters, the width the
 program uses) every line is full except the last, each ends in a line break, a piece consumes exactly the bytes of the
 lines it wrote, and pads appear only at the very end. Decoding text made of such groups yields exactly the bytes they
 encode, ignoring characters outside the alphabet, and in pieces consumes exactly the whole groups, wherever the text was
 cut; a decode of a whole refuses text that is not whole groups. Hex-encoding writes two digits for each byte; hex-decoding accepts exactly whole
 bytes of hex digits, between any white space, and yields those bytes. Failure to grow the output is reported.""",
 ["inputs"], "every byte string of every length, every cut into pieces",
 "tests encode one text; message bodies, tags, keys and fingerprints of every length pass through here",
 ["libdstr/common.c"], [("bin2b64_quiet/bin2b64_stream", "libdstr/common.c"), ("b642bin_quiet/b642bin_stream", "libdstr/common.c"), ("bin2hex/hex2bin", "libdstr/common.c")])

prop("X01", "An encrypted message opens only when it is whole, authentic and addressed to us",
 """Whatever bytes are given to the decrypter, in pieces cut anywhere, nothing is read or written outside its buffers, every whole line is
 processed as soon as it is there, and the metadata is read exactly as the format says: version 1 first, each recipient's
 fingerprint and key of the stated lengths, a 12-byte initialization vector, then the message. Decryption starts only
 once a recipient with our whole fingerprint was found, with exactly the key of that line and the whole initialization vector;
 a message that names only others is reported as not for us. Every decoded byte goes to the cipher once and in order, and decryption is reported as successful only
 if a tag of all 16 bytes was given and verified. Any other message is refused as malformed or not authentic, never as an internal error, and leaves
 nothing to finish; starting anew forgets everything of the message before. What was encrypted to us opens to what it was.""",
 ["inputs"], "every byte string in every division into pieces, every state of the decrypter",
 "test_crypto decrypts a few well-formed messages to two recipients; every mail in the mailbox, from anybody, is fed to this parser",
 ["libcrypto/crypto.c", "libcrypto/cmp.c"], [("decrypter_parse_metadata", "libcrypto/crypto.c"), ("decrypter_update/decrypter_finish", "libcrypto/crypto.c"), ("dstr_eq_consttime", "libcrypto/cmp.c")],
 note="what AES-GCM and the key sealing guarantee is assumed of OpenSSL; the round trip through the encrypter is searched natively, not proved")
prop("I03", "SEARCH finds exactly the messages the RFC says; message sets mean what they say",
 """For every search key, of any shape and nested up to a thousand deep, every message and every mailbox size, SEARCH matches the message exactly when RFC 3501
 says so: flag keys by the message's flags, header keys if any header of that name (in any case) contains the text, BODY and TEXT if the text occurs in the
 body or anywhere in the message, date keys by calendar day disregarding time and zone, size keys by length, NOT, OR and AND by their
 operands, and a message or UID set if the number lies in one of its ranges, whichever way around a range is written and with "*"
 standing for the largest number in use. A message that cannot be parsed just does not match header and text keys. Walking a set within bounds
 gives, element by element and in ascending order, exactly the numbers in bounds, and ends.""",
 ["inputs"], "every key, every message, every set of any length, every bound",
 "test_search tries some seventy keys on fixed messages, with at most one header of a name; keys come from the mail client, headers from anybody",
 ["libimaildir/search.c", "libimap/expression.c"], [("search_key_eval/do_eval", "libimaildir/search.c"), ("in_seq_set", "libimaildir/search.c"), ("ie_seq_set_iter/ie_seq_set_next", "libimap/expression.c")],
 note="where the parser says that a message's headers and body are is taken as given; MODSEQ is not evaluated by the code and left open; sub-keys beyond level 1000 count as not matching")

prop("C06", "Searching, splitting and replacing in text is exact",
 """Looking for any of several patterns in a text finds the first place where one of them occurs and the first pattern that occurs there, or, if none
 does, reports the longest beginning of a pattern that ends the text (so that a match which more input might complete is never missed). Splitting a text at a separator yields exactly what is between the
 separators, in order, including empty parts; when there are more parts than there is room for, the strict forms refuse and the soft
 forms put all the rest into the last one, and outputs not used are empty. Search-and-replace writes exactly the input with each match,
 found one after the other, replaced by its own replacement, up to and with the end pattern if there is one; fed in pieces, it takes from its input
 exactly what it has dealt with, keeping the beginning of a pattern for later. All of them end, and none reads outside its arguments.""",
 ["inputs"], "every text, every list of non-empty patterns, any number of outputs",
 "test_dstr_find, test_dstr_split and test_dstr_recode try a few literals; log lines, file names and message metadata are taken apart by these functions",
 ["libdstr/common.c"], [("dstr_find", "libdstr/common.c"), ("dstr_split/dstr_split2_soft", "libdstr/common.c"), ("dstr_recode/dstr_recode_stream", "libdstr/common.c")],
 note="an empty separator or search pattern is a precondition violation (every caller passes a non-empty literal)")

prop("M01", "What the mailbox log and message file names record reads back as it was written",
 """Every record of the mailbox log (a message with its UID, state, flags, date and modseq; an expunge; a UIDVALIDITY pair; each kind
 of key) is read back by the parser as exactly what was written, for all values of every field, under the key it was stored under, and
 a record of one kind is never taken for the other. Any other text is accepted exactly if it is of the format (version, number of
 fields, numbers that fit, a known state with the right number of fields, known flags, a full date), with the values it says,
 and refused otherwise, returning no message. The name of a message file, which carries the time, the two UIDs and the length, reads
 back the same way, is never a path (the host name is escaped), and is refused, never returned half parsed, unless it is
 complete, of this version, at least 16 characters long and names exactly one UID.""",
 ["inputs", "histories"], "every message, expunge, key and name; every text read",
 "test_log_file writes and reads a few messages; a field mixed up or a record misread after a restart loses flags or downloads everything again",
 ["libimaildir/log.c", "libimaildir/name.c", "libimaildir/msg.c"], [("parse_value/marshal_message/marshal_expunge", "libimaildir/log.c"), ("maildir_name_write/maildir_name_parse", "libimaildir/name.c")],
 note="formatting, splitting and numbers by contract (E02, C06); info must not contain a colon")

prop("M02", "The mailbox log gives back what was logged last, and rewriting it loses nothing",
 """Each update of the mailbox log writes one whole line, key and value, and reports success only once that line is on disk. Opening the log gives, for every
 key, exactly the last value written under it (a message, an expunge, or nothing if the last value says the key can be forgotten, also if the log
 has been compacted since), the last UID validities and modseq, and a highest modseq no lower than any that was given out. A last line that was not completely
 written is cut off and nothing else. The log is never overwritten in place: a compacted or shortened log is written to
 another file, completely, brought to disk, closed, and only then renamed over the log; if anything fails before that, the log is as it was. No file handle
 or message is leaked, used after it is closed or freed, or left in one of the trees.""",
 ["inputs", "histories", "crash_points"], "every sequence of updates, every content of the log, every failure of a file operation",
 "test_log_file writes a few messages and reads them; compaction needs a thousand lines, and a failure or power loss at the right moment is never tried",
 ["libimaildir/log_file.c"], [("maybe_compact", "libimaildir/log_file.c"), ("read_all_keys/read_one_value", "libimaildir/log_file.c"), ("imaildir_log_open", "libimaildir/log_file.c"), ("set_uidvlds/update_msg/update_expunge", "libimaildir/log_file.c")],
 note="file operations, hashmap and trees by contract; different messages have different modseqs; the text of lines is M01")

prop("I06", "A command acts on exactly the messages it names",
 """STORE, COPY, FETCH, SEARCH, EXPUNGE and CLOSE act on exactly the messages meant: a message set, by UID or by sequence number, with ranges in either order, overlapping or nested, and with
"*" standing for the last message, names a message if and only if its number lies in one of the ranges; UIDs that do not exist are ignored, and a sequence number that does not exist
makes the command fail with BAD and no effect. Each message named is acted on once. Building a set from numbers and ranges keeps every number, adds none, and gives ranges in
order that do not touch. SEARCH reports the UID or sequence number of exactly the messages that match, having tried each with its own sequence number, the largest sequence number and the largest UID.
EXPUNGE and CLOSE take exactly the messages marked \\Deleted, a FETCH that reads a body marks exactly the unseen ones among those named, and after a STORE each message named is expected to have the flags
given, added or removed, while other flags stay. Nothing is lost, freed twice or left open when memory runs out or a message cannot be read.""",
 ["inputs"], "every mailbox, every message set, every failure",
 "the tests use mailboxes with a handful of messages and a few simple sets; nested ranges, the largest UID, and failures in the middle of a search are never tried",
 ["libimaildir/dn.c", "libimaildir/util.c"], [("seq_set_to_canonical_uids_dn", "libimaildir/dn.c"), ("uids_dn_to_msg_keys/nonpeek_msgs/get_msg_keys_to_expunge", "libimaildir/dn.c"), ("dn_search_loop", "libimaildir/dn.c"), ("store_begin/copy_begin", "libimaildir/dn.c"), ("seq_set_builder_*", "libimaildir/util.c")],
 note="trees by contract (and natively), the set iterator and search keys by contract (I03)")

prop("I07", "A mailbox opened read-only is never changed",
 """For a connection which opened a mailbox with EXAMINE, no command asks for a change of the mailbox: STORE and EXPUNGE answer NO, CLOSE disconnects without expunging, and FETCH does not mark
messages as seen and still answers. For a mailbox opened with SELECT, only STORE, EXPUNGE, an explicit CLOSE, and a FETCH which reads a body without PEEK ask for a change, once each, and only for messages concerned.""",
 ["inputs"], "every mailbox, every command and every failure",
 "the tests open mailboxes with SELECT; none sends CLOSE or FETCH of a body to a mailbox opened with EXAMINE",
 ["libimaildir/dn.c"], [("store_begin", "libimaildir/dn.c"), ("expunge_begin", "libimaildir/dn.c"), ("disconnect_begin", "libimaildir/dn.c"), ("fetch_begin/fetch_is_peek_only", "libimaildir/dn.c")],
 note="changes are asked for only through imaildir_dn_request_update(); COPY does not change its source")


prop("I08", "A client is never misled about the messages of its mailbox",
 """In every session and for every history of changes, a client that applies the responses it is sent keeps a correct picture of the mailbox: an EXPUNGE response is only ever sent for a message the client
knows of, with the number the client knows it by after the EXPUNGEs before it, exactly once per message removed, and never in reply to a FETCH, STORE or SEARCH by sequence number; a message that came and went between two commands is never mentioned;
EXISTS never shrinks the mailbox, comes after the removals, and gives the number of messages, whenever new ones arrived; a FETCH response has the message's current sequence number (and its UID exactly in reply to a UID command)
and exactly the flags it has; new flags of a message the client knows are told, once, and after a STORE the client is told of each message whose flags are not those it asked for, and unless it asked for
.SILENT of each message named. When a command ends, the client's count, numbers and flags are those of the server. The tagged response comes once, after all others, and says OK exactly if the command was
carried out; when memory runs out nothing is sent by halves. SELECT reports the first unseen message by its number.""",
 ["inputs", "histories"], "every mailbox, every sequence of updates and commands, every failure",
 "the tests follow a few scripted sessions; an expunge of a message the client was never told about, several kinds of updates for one message in one batch, and failures in the middle of a batch are never tried",
 ["libimaildir/dn.c"], [("gather_send_responses", "libimaildir/dn.c"), ("gather_updates_dont_send", "libimaildir/dn.c"), ("send_store_fetch_resps", "libimaildir/dn.c"), ("fetch_respond/store_finish/expunge_finish/copy_finish", "libimaildir/dn.c"), ("dn_imaildir_update", "libimaildir/dn.c")],
 note="the client is modelled by the number of messages it knows and the position of one message among them; trees and the construction of responses by contract")

prop("I09", "FETCH of a section returns exactly that section",
 """FETCH BODY[section]<a.b> returns exactly the bytes named: all of the message for BODY[], the part, its MIME headers, its text, its headers, or those of its headers whose names are listed
(HEADER.FIELDS) or are not listed (HEADER.FIELDS.NOT), each once, in order, whatever their case, followed by the line that ends the headers; and of these the b bytes from offset a on (or as many
as there are), with the offset in the answer. The answer to one section does not depend on which others are asked for with it. A section that does not exist is left out and the command
ends with NO; no message and no combination of sections makes the server read or free memory that is not there.""",
 ["inputs"], "every message, every list of sections, every failure",
 "the tests fetch single sections of a few well-formed messages",
 ["libimaildir/dn.c", "libimap/imf.c"], [("build_fetch_resp_extra", "libimaildir/dn.c"), ("build_sect_txt_content_resp", "libimaildir/dn.c"), ("copy_hdr_fields/copy_hdr_fields_not", "libimaildir/dn.c")],
 note="parsing of messages by contract in the proof; exercised natively by the search")
