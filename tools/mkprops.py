#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))

prop("C01","Any byte string can be parsed as a message without memory errors or hanging",
 "For every byte string of every length, parsing it as a DNS message terminates, reads only bytes of that string, writes only memory the parse owns, and returns success or an error code (it never aborts). After an error nothing stays allocated; after success, clearing the message releases everything exactly once.",
 ["inputs"],"all packets (all lengths, all byte values)",
 "The tests parse a few dozen fixed packets; out-of-bounds reads depend on the exact position of the packet end relative to names, lengths and pointers, which are unbounded combinations.",
 ["wdns/parse_message.c","wdns/parse_message_rr.c","wdns/parse_rdata.c","wdns/unpack_name.c","wdns/skip_name.c","wdns/insert_rr_rrset_array.c","wdns/parse_edns.c","wdns/clear.c","libmy/vector.h"],
 [("wdns_parse_message","wdns/parse_message.c"),("_wdns_parse_message_rr","wdns/parse_message_rr.c"),("_wdns_parse_rdata","wdns/parse_rdata.c"),("wdns_unpack_name","wdns/unpack_name.c")],
 [dict(name="message",meaning="four sections of RRs and RRsets plus EDNS data, all heap allocated",where="wdns_message_t")],["wdns_parse_message","wdns_clear_message"])

prop("C02","Name decompression yields exactly the wire name the packet encodes",
 "Unpacking a name at any position of any packet either fails or produces exactly the labels found by following the packet's labels and compression pointers from that position, ended by a root label, with a reported length of at most 255 octets equal to the bytes produced. It succeeds exactly when every octet consulted lies inside the packet, every label length is at most 63, every compression pointer refers to an earlier offset than the pointer itself, and the total length is at most 255. The plain (uncompressed) name copier obeys the same rule with compression pointers rejected, and skipping a name advances past exactly the octets it occupies in place.",
 ["inputs"],"all packets and all start positions in them",
 "Names, pointers and pointer chains combine without bound; the tests contain a handful of compressed names.",
 ["wdns/unpack_name.c","wdns/copy_uname.c","wdns/skip_name.c"],
 [("wdns_unpack_name","wdns/unpack_name.c"),("wdns_copy_uname","wdns/copy_uname.c"),("wdns_skip_name","wdns/skip_name.c")],
 None,["wdns_unpack_name","wdns_copy_uname","wdns_skip_name"])

prop("C03","A parsed record and header carry exactly what the packet says",
 "In a successfully parsed message the id, flags and response code equal the header's, each section's records appear in wire order with the owner name, type, class, TTL and record data found in the packet (question entries carry no TTL or data), and at most the header's count of them. The first OPT record is not stored as a record but supplies EDNS presence, payload size, version, flags, options and the upper bits of the response code; later OPT records are ordinary records. A packet that ends exactly between records yields the records before that point.",
 ["inputs"],"all packets",
 "The existing packet tests compare printed output of a few real packets; they never vary header fields, section counts, truncation points or OPT placement systematically.",
 ["wdns/parse_message.c","wdns/parse_message_rr.c","wdns/parse_edns.c","wdns/parse_header.c","wdns/insert_rr_rrset_array.c"],
 [("wdns_parse_message","wdns/parse_message.c"),("_wdns_parse_message_rr","wdns/parse_message_rr.c"),("_wdns_parse_edns","wdns/parse_edns.c")],
 None,["wdns_parse_message"])

prop("C04","Records are grouped into RRsets completely, without loss or mixing",
 "Within each non-question section of a parsed message every record's data appears in exactly one RRset of that section, namely the one whose type and class equal the record's and whose owner name equals it ignoring ASCII case; record data keeps wire order inside the RRset, there are no two RRsets with the same key, and the RRset's TTL is the minimum of its records' TTLs. In the question section every entry forms its own RRset without data. The comparison of a record with an RRset is true exactly when type and class are equal and the names are equal ignoring ASCII case.",
 ["inputs","histories"],"all sequences of records of a section, all names",
 "Grouping depends on the whole history of insertions; the tests parse a few packets with few RRsets and never compare against an independent grouping.",
 ["wdns/insert_rr_rrset_array.c","wdns/compare_rr_rrset.c","wdns/downcase_name.c","wdns/parse_message.c"],
 [("_wdns_insert_rr_rrset_array","wdns/insert_rr_rrset_array.c"),("wdns_compare_rr_rrset","wdns/compare_rr_rrset.c")],
 [dict(name="section",meaning="array of RRs and array of RRsets",where="wdns_rrset_array_t")],["wdns_parse_message","wdns_compare_rr_rrset"])

prop("C05","Record data is accepted only when well formed and is stored decompressed",
 "For every record type, class and record-data region of a packet, parsing the record data fails unless the region is exactly a sequence of the fields defined for that type (a region ending early on a field boundary is accepted), each field lying inside the region; on success the stored data is the region with every domain-name field replaced by its decompressed form and everything else byte for byte, and its stored length is the number of those bytes. Data of unknown types, or of a class the type is not defined for, is copied unchanged.",
 ["inputs"],"all types, classes, packets and record-data regions",
 "About 60 record layouts times unbounded contents; tests only parse a few samples per type and mostly only well-formed ones.",
 ["wdns/parse_rdata.c","wdns/record_descr.c","wdns/unpack_name.c","wdns/skip_name.c"],
 [("_wdns_parse_rdata","wdns/parse_rdata.c"),("record_descr_array","wdns/record_descr.c")],
 None,["wdns_parse_message"])

prop("C06","Printing a name and reading it back is the identity",
 "For every well-formed wire-format name of up to 255 octets (any octet values in labels), converting it to text writes at most 1025 bytes including the terminator, uses only printable ASCII, and returns the number of wire octets consumed; converting that text back without case folding gives exactly the original octets and length, and with case folding the original with ASCII capitals lowered.",
 ["inputs"],"all well-formed wire names, every octet value",
 "Labels can hold any octet and escapes interact with lengths; tests check a few dozen names.",
 ["wdns/domain_to_str.c","wdns/str_to_name.c"],
 [("wdns_domain_to_str","wdns/domain_to_str.c"),("wdns_str_to_name_case","wdns/str_to_name.c")],
 None,["wdns_domain_to_str","wdns_str_to_name","wdns_str_to_name_case"])

prop("C07","Name text parsing yields a well-formed name or an error, never anything else",
 "For every text string, converting it to a name either fails leaving nothing allocated, or yields a well-formed uncompressed wire name: labels of 1 to 63 octets, a final root label, total length equal to the reported length and at most 255 octets. It reads no byte beyond the string's terminator and writes none outside its buffer.",
 ["inputs"],"all NUL-terminated strings",
 "Escapes, dots and length limits interact at every position of arbitrarily long strings; tests hold a fixed list of strings.",
 ["wdns/str_to_name.c"],[("_wdns_str_to_name","wdns/str_to_name.c")],None,["wdns_str_to_name","wdns_str_to_name_case"])

prop("C08","Any record data can be rendered as text safely and in the canonical form",
 "For every type, class and record-data byte string of up to 65535 bytes, well formed or not, rendering it as text terminates, reads only those bytes, never aborts and returns one complete NUL-terminated string. Data that is well formed for its type and class is rendered field by field in the type's presentation format, and data of a type the library does not know in the generic form: a backslash-hash marker, the decimal length and the bytes in hexadecimal (blanks at the end of the text are insignificant). For data that is malformed for its type, or of a class its type is not defined for, only the safety part applies.",
 ["inputs"],"all types, classes and byte strings",
 "Truncated and malformed data at every field boundary of about 60 layouts is out of reach of a table of sample records.",
 ["wdns/rdata_to_ubuf.c","wdns/rdata_to_str.c","wdns/svcparamkeys_to_str.c","wdns/record_descr.c","libmy/ubuf.h"],
 [("_wdns_rdata_to_ubuf","wdns/rdata_to_ubuf.c"),("wdns_rdata_to_str","wdns/rdata_to_str.c")],None,["wdns_rdata_to_str"])

prop("C09","Record data survives a round trip through its text form",
 "For every type unknown to the library with any record data, and every known type (in a class it is defined for) with nonempty, well-formed record data, converting the text rendering back to record data succeeds and yields exactly the same bytes. Well formed means: all fields present (only a trailing type bitmap, parameter list or rest-of-data field may be empty), type bitmaps and service parameters in canonical form (windows increasing, no trailing zero octet, no bit for type 0; parameter keys strictly increasing with nonempty lists), no name field in an A6 record with prefix length 0, a nonempty NSEC3 next-owner hash and a signature covering a type other than 0. The OPT pseudo record is excepted.",
 ["inputs"],"all types and all record data accepted for them",
 "Tests check the two directions on the same small tables of samples; field values, escapes and lengths are unbounded.",
 ["wdns/rdata_to_ubuf.c","wdns/str_to_rdata_ubuf.c","wdns/str_to_name.c","wdns/svcparamkeys_to_str.c"],
 [("_wdns_rdata_to_ubuf","wdns/rdata_to_ubuf.c"),("_wdns_str_to_rdata_ubuf","wdns/str_to_rdata_ubuf.c")],None,["wdns_rdata_to_str","wdns_str_to_rdata"])

prop("C10","Any string can be offered as record data text without memory errors",
 "For every type, class and text string, converting the string to record data terminates, reads nothing beyond the string's terminator, writes only memory it owns, never aborts, and either fails leaving nothing allocated or returns record data of at most 65535 bytes whose reported length is the number of bytes produced.",
 ["inputs"],"all types, classes and NUL-terminated strings",
 "The presentation parsers accept free-form text; tests exercise fixed tables, not strings cut or altered at arbitrary positions.",
 ["wdns/str_to_rdata_ubuf.c","wdns/str_to_name.c","libmy/hex_decode.h","libmy/b64_decode.c","libmy/b32_decode.c"],
 [("_wdns_str_to_rdata_ubuf","wdns/str_to_rdata_ubuf.c")],None,["wdns_str_to_rdata"])

prop("C11","RRset serialization is exact and reversible, and deserialization is safe",
 "Serializing an RRset reports exactly the number of bytes it writes and writes no more, and deserializing those bytes reproduces the owner name, type, class, TTL and every record data in order. Deserializing any byte string of any length terminates, reads only those bytes, and either reproduces the RRset they describe or fails leaving nothing allocated.",
 ["inputs"],"all RRsets (any number of data, any lengths) and all byte strings",
 "No test enumerates truncated or corrupt buffers, nor RRsets with many or large data.",
 ["wdns/serialize_rrset.c","wdns/deserialize_rrset.c","wdns/clear.c"],
 [("wdns_serialize_rrset","wdns/serialize_rrset.c"),("wdns_deserialize_rrset","wdns/deserialize_rrset.c")],None,["wdns_serialize_rrset","wdns_deserialize_rrset"])

prop("C12","Downcasing lowers ASCII capitals in domain names and changes nothing else",
 "Downcasing a name replaces every octet 'A' to 'Z' by its lower-case form and changes no other octet. Downcasing record data never changes its length, leaves record data of types outside the DNSSEC canonical-form list, and of a class the type is not defined for, untouched, and in well-formed data of the listed types lowers the capitals of exactly the octets of its domain-name fields; for data that is not well formed it changes at most 'A'-'Z' octets, stays inside the data and may report an error.",
 ["inputs"],"all types, classes and record data",
 "The tests downcase a few samples; they do not check that non-name octets resembling capitals stay intact, nor malformed data.",
 ["wdns/downcase_name.c","wdns/downcase_rdata.c","wdns/downcase_rrset.c"],
 [("wdns_downcase_name","wdns/downcase_name.c"),("wdns_downcase_rdata","wdns/downcase_rdata.c"),("wdns_downcase_rrset","wdns/downcase_rrset.c")],None,["wdns_downcase_name","wdns_downcase_rdata","wdns_downcase_rrset"])

prop("C13","Name utilities agree with the label sequence of the name",
 "For every well-formed wire name: the measured length is the name's length, the label count is the number of its labels before the root, chopping from the left removes exactly the first label (and the root chops to the root), reversing gives the labels in opposite order followed by the root, and the subdomain test is true exactly when the second name's labels are a proper byte-wise suffix of the first's. For every byte string that is not a well-formed name these functions stay within the given length and never succeed with a result that lies outside it.",
 ["inputs"],"all byte strings as names, all pairs of names",
 "Tests use short textual names only; they never present unterminated names, or pairs that agree in bytes but not at label boundaries.",
 ["wdns/len_uname.c","wdns/count_labels.c","wdns/left_chop.c","wdns/reverse_name.c","wdns/is_subdomain.c"],
 [("wdns_len_uname","wdns/len_uname.c"),("wdns_count_labels","wdns/count_labels.c"),("wdns_left_chop","wdns/left_chop.c"),("wdns_reverse_name","wdns/reverse_name.c"),("wdns_is_subdomain","wdns/is_subdomain.c")],None,
 ["wdns_len_uname","wdns_count_labels","wdns_left_chop","wdns_reverse_name","wdns_is_subdomain"])

prop("C14","Code and mnemonic tables are inverse to each other",
 "For every 16-bit record type and class number and every response code and opcode: the mnemonic is the one the DNS registries assign, converting it back (in any letter case) gives the number, and mnemonics are unique. A type or class without mnemonic is printed and converted back in its generic TYPEnnn or CLASSnnn spelling, and strings that are neither a mnemonic nor a generic spelling of a 16-bit number yield the not-found value (what signs or blanks in front of the digits of a generic spelling do is left open, and the not-found value doubles as type 0).",
 ["inputs"],"all 65536 numbers per table, all strings",
 "Tests sample a few mnemonics; the tables are generated and the bijection is never enumerated.",
 ["wdns/gen_rrtype_to_str","wdns/gen_rrclass_to_str","wdns/gen_rcode_to_str","wdns/wdns.h.in","wdns/opcode_to_str.c"],
 [("wdns_rrtype_to_str / wdns_str_to_rrtype","wdns/gen_rrtype_to_str"),("wdns_rrclass_to_str / wdns_str_to_rrclass","wdns/gen_rrclass_to_str"),("wdns_rcode_to_str / wdns_str_to_rcode","wdns/gen_rcode_to_str")],None,
 ["wdns_rrtype_to_str","wdns_str_to_rrtype","wdns_rrclass_to_str","wdns_str_to_rrclass","wdns_rcode_to_str","wdns_str_to_rcode"])

prop("C15","Binary-to-text encoders and number formatters are exact and stay in bounds",
 "For every byte string (a nonempty one for base32hex) the base64 and base32hex encoders emit exactly the standard encoding and stay within the documented output size, and the decoders invert them, read nothing outside their input and write at most one octet more than 3/4 of the number of input characters (base64) or the given room (base32), whatever the characters are. For every value the decimal and hexadecimal formatters emit its canonical digits, and the address formatters emit the standard text of every IPv4 and IPv6 address, terminated and within the caller's buffer, or fail when the buffer is too small.",
 ["inputs"],"all byte strings, values, addresses and buffer sizes",
 "Tests reach these only through a few sample records.",
 ["libmy/b64_encode.c","libmy/b64_decode.c","libmy/b32_encode.c","libmy/b32_decode.c","libmy/hex_decode.h","libmy/my_format.c","libmy/fast_inet_ntop.c"],
 [("base64_encode_block","libmy/b64_encode.c"),("base64_decode_block","libmy/b64_decode.c"),("base32_encode","libmy/b32_encode.c"),("base32_decode","libmy/b32_decode.c"),("my_uint64_to_str","libmy/my_format.c"),("fast_inet_ntop","libmy/fast_inet_ntop.c")],None,["libmy encoders"])

prop("C16","Printing a message, record or RRset shows every record once, in order, and is safe",
 "For every parsed message the text rendering contains the header fields and flags, the EDNS data when present, and for each section its records in order, one line each, with owner name, TTL (not for questions), class, type and record data each in the library's own text form (blanks at line ends are insignificant, and the form of malformed EDNS option data is left open); records and RRsets likewise. Rendering never aborts, reads only the object's memory and leaves the object unchanged.",
 ["inputs"],"all parsed messages, records and RRsets",
 "Tests compare printed output of a few packets only.",
 ["wdns/message_to_str.c","wdns/rr_to_ubuf.c","wdns/rr_to_str.c","wdns/rrset_to_ubuf.c","wdns/rrset_to_str.c","wdns/rrset_array_to_ubuf.c","wdns/rrset_array_to_str.c","wdns/edns_options.c"],
 [("wdns_message_to_str","wdns/message_to_str.c"),("_wdns_rr_to_ubuf","wdns/rr_to_ubuf.c"),("_wdns_rrset_to_ubuf","wdns/rrset_to_ubuf.c")],None,["wdns_message_to_str","wdns_rr_to_str","wdns_rrset_to_str","wdns_rrset_array_to_str"])

prop("C17","Sorting an RRset permutes its data into a total canonical order",
 "Sorting the record data of an RRset keeps exactly the same data (as a multiset), changes nothing else, and leaves them ordered by length first and byte-wise within equal length; the comparison used is a total order for all record data, including data of length zero and bytes above 127.",
 ["inputs"],"all RRsets and all triples of record data",
 "Tests sort a few small RRsets; order laws quantify over all pairs and triples.",
 ["wdns/sort_rrset.c"],[("wdns_sort_rrset, rdata_cmp","wdns/sort_rrset.c")],None,["wdns_sort_rrset"])

prop("C18","Growable byte buffers keep their contents and bounds under every operation history",
 "For every sequence of create, append, add, reserve, advance, clip, reset, detach, string and formatted-append operations on the library's growable byte buffer, its contents equal the concatenation the operations describe, its write position is the end of the contents, the capacity is never smaller than the size, and no access leaves the allocation.",
 ["histories","inputs"],"all operation histories with any sizes",
 "No test targets the buffer directly; growth boundaries are hit only by chance.",
 ["libmy/vector.h","libmy/ubuf.h","libmy/my_alloc.h"],
 [("VECTOR_GENERATE functions","libmy/vector.h"),("ubuf_cstr, ubuf_add_cstr, ubuf_add_fmt","libmy/ubuf.h")],
 [dict(name="ubuf",meaning="_v data, _p write position, _n size, _n_alloced capacity",where="libmy/vector.h")],["ubuf functions"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
