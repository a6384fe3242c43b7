"""What decides each property: the contracts (and lemmas) whose obligations must all be accepted, and the
functions the property depends on that only have a bounded stand-in (input search against an independent oracle)."""
COMMON_ASSUMPTIONS = [
    "malloc/calloc/realloc succeed (the library aborts through assert otherwise)",
    "objects are smaller than 2^48 bytes and pointers behave as (object, offset) pairs",
    "the C source is translated by clang 18 to LLVM IR; the extraction drops nothing but uses -O0 plus scalar promotion passes",
    "machine arithmetic is exact (bit-vectors), nothing is treated as mathematical integers",
]

UBUF = ["init", "new", "reserve", "append", "add", "clip", "reset", "advance", "size", "bytes", "data", "ptr", "value", "detach", "destroy",
        "extend", "cterm", "cstr", "rstrip", "reinit", "add_cstr"]

_PART = "deductive proof for the functions listed under functions_under_contract; the rest of the property is only searched"

PROPS = {
    "C01": dict(tasks=["_wdns_parse_message_rr", "_wdns_parse_rdata", "svcparam_key_validate", "_wdns_parse_edns", "wdns_clear_rr", "wdns_clear_rrset", "wdns_skip_name", "wdns_unpack_name",
                       "wdns_copy_uname"],
                bounded=["wdns_parse_message", "_wdns_insert_rr_rrset_array", "wdns_clear_message"],
                level="other", explanation=_PART),
    "C02": dict(tasks=["wdns_unpack_name", "wdns_copy_uname", "wdns_skip_name"]),
    "C03": dict(tasks=["_wdns_parse_message_rr", "_wdns_parse_edns", "wdns_clear_rr", "wdns_unpack_name", "wdns_skip_name"],
                bounded=["wdns_parse_message"], level="other", explanation=_PART,
                assumptions=["_wdns_parse_message_rr is checked against the contract of _wdns_parse_rdata, which check C05 discharges"]),
    "C04": dict(tasks=["wdns_compare_rr_rrset"], bounded=["_wdns_insert_rr_rrset_array", "wdns_parse_message"], level="other", explanation=_PART),
    "C05": dict(tasks=["_wdns_parse_rdata", "svcparam_key_validate", "lemma_record_layouts", "wdns_skip_name", "wdns_unpack_name", "wdns_copy_uname"] +
                ["ubuf_" + x for x in ("init", "new", "append", "size", "data", "bytes", "destroy")]),
    "C08": dict(tasks=["wdns_domain_to_str", "wdns_rrtype_to_str", "wdns_rrclass_to_str", "my_uint64_to_str", "my_bytes_to_hex_str", "my_uint16_to_hex_str",
                       "base64_encode_block", "base64_encode_blockend", "wdns_len_uname"] + ["ubuf_" + x for x in ("append", "add", "add_cstr", "rstrip", "cterm", "detach")],
                bounded=["_wdns_rdata_to_ubuf", "wdns_rdata_to_str", "ubuf_add_fmt"], level="other", explanation=_PART),
    "C09": dict(tasks=["lemma_name_roundtrip", "lemma_mnemonics_unique", "wdns_domain_to_str", "wdns_str_to_name_case", "wdns_rrtype_to_str", "wdns_str_to_rrtype",
                       "my_uint64_to_str", "my_bytes_to_hex_str", "base64_encode_block", "base64_encode_blockend"],
                bounded=["_wdns_str_to_rdata", "_wdns_str_to_rdata_ubuf", "_wdns_rdata_to_ubuf"], level="other", explanation=_PART),
    "C10": dict(tasks=["wdns_str_to_name", "wdns_str_to_name_case", "wdns_str_to_rrtype"] + ["ubuf_" + x for x in ("init", "append", "add", "reserve", "detach", "destroy")] +
                ["u16buf_" + x for x in ("init", "add", "size", "data", "destroy")],
                bounded=["_wdns_str_to_rdata", "_wdns_str_to_rdata_ubuf", "base64_decode_block", "base32_decode"], level="other", explanation=_PART),
    "C16": dict(tasks=["wdns_domain_to_str", "wdns_rrtype_to_str", "wdns_rrclass_to_str", "wdns_rcode_to_str", "wdns_opcode_to_str", "my_uint64_to_str"] +
                ["ubuf_" + x for x in ("append", "add_cstr", "add", "cterm", "detach")],
                bounded=["wdns_message_to_str", "wdns_rrset_to_str", "wdns_rr_to_str", "_wdns_message_to_ubuf"], level="other", explanation=_PART),
    "C06": dict(tasks=["wdns_domain_to_str", "wdns_str_to_name", "wdns_str_to_name_case", "lemma_name_roundtrip", "lemma_name_roundtrip_fold"],
                assumptions=["strtol gives the decimal value of a run of digits; snprintf %.3d writes the three decimal digits of an octet"]),
    "C07": dict(tasks=["wdns_str_to_name", "wdns_str_to_name_case"]),
    "C11": dict(tasks=["wdns_serialize_rrset", "wdns_deserialize_rrset", "wdns_clear_rrset", "lemma_rrset_roundtrip"],
                assumptions=["the array of an RRset points to distinct record data objects, none of them null, when it is serialized"]),
    "C12": dict(tasks=["wdns_downcase_name", "wdns_downcase_rdata", "wdns_downcase_rrset", "lemma_record_layouts"],
                assumptions=["the array of an RRset points to distinct record data objects, none of them null"]),
    "C13": dict(tasks=["wdns_len_uname", "wdns_count_labels", "wdns_left_chop", "wdns_reverse_name", "wdns_is_subdomain"]),
    "C15": dict(tasks=["base64_encode_block", "base64_encode_blockend", "my_uint16_to_hex_str", "my_bytes_to_hex_str", "my_uint64_to_str"],
                bounded=["base64_decode_block", "base32_encode", "base32_decode", "fast_inet4_ntop", "fast_inet6_ntop"], level="other", explanation=_PART),
    "C14": dict(tasks=["wdns_rrtype_to_str", "wdns_rrclass_to_str", "wdns_rcode_to_str", "wdns_opcode_to_str", "wdns_str_to_rrtype", "wdns_str_to_rrclass",
                       "wdns_str_to_rcode", "lemma_mnemonics_unique"],
                assumptions=["bsearch finds an element the comparison calls equal exactly if there is one, on a table that is ascending (proved) for that comparison",
                             "strtol gives the decimal value of a maximal run of digits; strcasecmp/strncasecmp compare ignoring ASCII case (C locale)"]),
    "C17": dict(tasks=["wdns_sort_rrset", "lemma_rdata_order_total"],
                assumptions=["qsort permutes the array into the order of a comparison that is a total order (the order is proved, qsort itself is trusted)"]),
    "C18": dict(tasks=["ubuf_" + x for x in UBUF] + ["u16buf_" + x for x in ("init", "add", "size", "data", "value", "destroy")], bounded=["ubuf_add_fmt"]),
}

# contracts verified one variant per task
SPLIT = {"wdns_domain_to_str": 2, "_wdns_parse_rdata": 2, "wdns_serialize_rrset": 3, "wdns_downcase_rdata": 2}

NOT_APPLICABLE = {}
