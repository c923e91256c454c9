# property -> proof units and search units; see bin/check.py
PROPS = {}
MINISAT = ["--sat-solver", "minisat2"]

PROPS["E01"] = dict(
    harness="b64url.c",
    proofs=[dict(entry="p_encode", cost=100), "p_decode", "p_decode_complete", "p_decode_char", "p_roundtrip_lemma"],
    searches=[dict(entry="s_b64url", unwind=40, max_len=64)],
    functions=["do_bin2b64url", "b64url2bin_quiet"],
    trusted=["contract of dstr_append_char (proved under C01)"],
)

PROPS["D04"] = dict(
    harness="rrl.c", needs_gen=True,
    proofs=["p_rrl_check", dict(entry="p_rrl_same_source", replayable=True), "p_rrl_off"],
    searches=[dict(entry="s_rrl", unwind=16, max_len=240), dict(entry="s_rrl_other", unwind=260, bmc=False),
              dict(entry="s_rrl_same_source", max_len=60, bmc=False)],
    functions=["rrl_check", "hash_addr", "hash_uint"],
)

PROPS["K01"] = dict(
    harness="kvppkts.c", needs_gen=True,
    proofs=["p_update_read"] + ["p_roundtrip_" + x for x in ("empty", "flush", "start", "insert", "delete")] + ["p_write_badtype", "p_ack"],
    searches=[dict(entry="p_update_read", max_len=600, bmc=False), dict(entry="s_roundtrip", max_len=64, bmc=False),
              dict(entry="p_write_badtype", max_len=16, bmc=False), dict(entry="p_ack", max_len=40, bunwind=14)],
    functions=["kvpsync_update_read", "kvpsync_update_write", "kvpsync_ack_read", "kvpsync_ack_write", "read_uint*", "write_uint*", "dstr_grow (fixed-size path)"],
)

PROPS["E02"] = dict(
    harness="cvt.c",
    proofs=["p_" + x for x in "u10 ul10 size10 ull10 u6410 umax8 umax10 umax16 u16 i10 l10 ll10 i6410 imax10 imax16 badbase".split()],
    searches=[dict(entry="s_cvt", unwind=30, max_len=48, bmc=False), dict(entry="s_cvt_edge", max_len=16, bmc=False)],
    functions=["parse_integer", "read_base8/10/16", "dstr_to{u,ul,size,ull,u64,umax,i,l,ll,i64,imax}_quiet"],
)

PROPS["E03"] = dict(
    harness="unicode.c",
    proofs=[dict(entry="p_utf8_stream_%d" % k, cost=60) for k in range(4)] + ["p_utf16_stream_%se_%d" % (e, k) for e in "bl" for k in range(4)] + [dict(entry="p_utf8_whole", cost=60), "p_utf16_whole_bom", "p_utf16_whole_be",
            "p_utf16_whole_le", dict(entry="p_utf8_encode", replayable=True), dict(entry="p_utf16_encode", replayable=True)],
    searches=[dict(entry="s_unicode", unwind=30, max_len=40, fuzz_workers=3, bmc=False), dict(entry="p_utf8_encode", max_len=8), dict(entry="p_utf16_encode", max_len=8)],
    functions=["utf8_encode_quiet", "utf16_encode_quiet", "utf8_decode_stream", "utf8_decode_quiet", "utf16_decode_stream", "utf16_{,be_,le_}decode_quiet"],
)

R=lambda *a: list(a)
PROPS["D01"] = dict(
    harness="dns.c", needs_gen=True, unwind=7, defs=["SM_D01"],
    proofs=["p_name_lemma", "p_rr_lemma", "p_parse_name", "p_skip_name", "p_labels_next", dict(entry="p_labels_read_reverse", cost=50, replace=["labels_next"]),
            dict(entry="p_parse_qstn", replace=["parse_name"]), dict(entry="p_parse_rr", replace=["parse_name"]),
            dict(entry="p_find_edns", replace=["skip_name"]), "p_parse_edns",
            dict(entry="p_parse_pkt", replace=["parse_qstn", "parse_rr", "find_edns", "parse_edns"])],
    searches=[dict(entry="s_dns", max_len=400, bmc=False, fuzz_workers=5, fuzz_timeout=3), dict(entry="s_dns_raw", max_len=320, bmc=False, fuzz_timeout=3)],
    functions=["parse_pkt", "parse_hdr", "parse_qstn", "parse_rr", "parse_name", "skip_name", "labels_iter", "labels_next", "labels_read_reverse", "rrs_iter", "rrs_next", "find_edns", "parse_edns"],
)
PUTS = ["put_uint8", "put_uint16", "put_uint32", "put_lstr"]
PROPS["D02"] = dict(
    harness="dns.c", needs_gen=True, unwind=17,
    proofs=["p_put", "p_lstr_ieq", dict(entry="p_write_qstn", replace=PUTS + ["labels_next"], unwind=4),
            dict(entry="p_handle", replace=["parse_pkt", "labels_read_reverse", "lstr_ieq", "negative_resp", "positive_resp"])]
        + [dict(entry="p_" + x, replace=["write_qstn"] + PUTS, unwind=112 if x[-3:] in ("soa", "_ns") else 40) for x in ("negative_soa", "negative_bare", "positive_soa", "positive_ns", "positive_a", "positive_aaaa", "positive_caa", "positive_secret")],
    searches=[dict(entry="s_dns", max_len=400, bmc=False, fuzz_workers=6, fuzz_timeout=3)],
    functions=["handle_packet", "sort_pkt", "lstr_ieq", "respond_*", "negative_resp", "positive_resp", "write_*", "put_*"],
)
PROPS["C01"] = dict(
    harness="dstr.c",
    proofs=["p_" + x for x in "new grow append_old append_new append_char append_char_n null_terminate copy leftshift views free grow0_keep".split()],
    searches=[dict(entry="s_dstr", max_len=600, bmc=False)],
    functions=["dstr_new_quiet", "dstr_grow_quiet", "dstr_grow0_quiet", "dstr_append_quiet", "dstr_append_char", "dstr_append_char_n", "dstr_copystrn", "dstr_copy", "dstr_copy2",
               "dstr_leftshift", "dstr_null_terminate_quiet", "dstr_sub", "dstr_sub2", "dstr_empty_space", "dstr_free"],
    trusted=["contracts of malloc, realloc, free, memcpy, memmove, memset, explicit_bzero (on one arbitrary byte)"],
)
PROPS["C04"] = dict(
    harness="dstr.c",
    proofs=["p_" + x for x in "zeroize free0 grow0_erase append0_erase".split()],
    searches=[dict(entry="s_dstr", max_len=600, bmc=False), dict(entry="s_erase", max_len=200, bmc=False)],
    functions=["dstr_zeroize", "dstr_free0", "dstr_grow0_quiet", "dstr_grow0", "dstr_append0_quiet", "dstr_append0"],
    trusted=["contracts of malloc, realloc, free, memcpy, memset, explicit_bzero (on one arbitrary byte)"],
)
PROPS["C02"] = dict(
    harness="text.c", cbmc=["--sat-solver", "minisat2"],
    proofs=["p_cmp", "p_cmp2", "p_icmp", "p_icmp2", "p_eq", "p_ieq", "p_count", "p_count2", "p_icount2", "p_contains", "p_icontains", dict(entry="p_ends", replace=["dstr_eq", "dstr_ieq"])],
    searches=[dict(entry="s_text", max_len=120, bmc=False)],
    functions=["dstr_cmp", "dstr_cmp2", "dstr_icmp", "dstr_icmp2", "dstr_eq", "dstr_ieq", "dstr_count", "dstr_count2", "dstr_icount2", "dstr_contains", "dstr_icontains",
               "dstr_beginswith", "dstr_beginswith2", "dstr_ibeginswith2", "dstr_endswith", "dstr_endswith2", "dstr_iendswith2"],
)
PROPS["C03"] = dict(
    harness="link.c", unwind=8,
    proofs=["p_link_" + x for x in "add remove pop query".split()] + [dict(entry="p_link_" + x, defs=["SM_NN=5"]) for x in "concat pop_n_first pop_n_last".split()],
    searches=[dict(entry="p_link_" + x, max_len=20, bmc=False) for x in "add remove pop concat query pop_n_first pop_n_last".split()],
    functions=["link_init", "link_list_prepend", "link_list_append", "link_list_append_list", "link_list_prepend_list", "link_list_pop_first", "link_list_pop_last", "link_remove", "link_list_isempty"],
    bounded=["link_list_count (lists of up to 5 elements)", "link_list_pop_first_n/_last_n (2 lists of up to 4 elements; natively up to 3)"],
)
R_AP = ["dstr_append_quiet", "dstr_append", "dstr_leftshift"]
PROPS["E05"] = dict(
    harness="b64hex.c", cbmc=["--sat-solver", "minisat2"],
    proofs=[dict(entry="p_" + x, replace=R_AP) for x in "b64_enc_all b64_stream b64_stream_end b64_dec b64_dec_all b64_dec_stream hex_enc hex_dec hex_dec_bad".split()]
        + ["p_b64_lemma", "p_b64_sizes", "p_hex_nibbles"],
    searches=[dict(entry="s_b64", max_len=160, bmc=False)],
    functions=["bin2b64_quiet", "bin2b64", "bin2b64_stream", "b642bin_quiet", "b642bin", "b642bin_stream", "bin2b64_output_len", "b642bin_output_len", "bin2hex_quiet", "bin2hex", "hex2bin", "hex_high_nibble", "hex_low_nibble"],
    trusted=["snprintf with \"%.2x\"", "isspace in the C locale", "dstr_append/leftshift contracts (proved under C01)"],
)
R_CR = ["dstr_find", "dstr_sub", "dstr_sub2", "dstr_append_quiet", "dstr_leftshift"]
R_CM = ["dstr_find:m_dstr_find", "dstr_sub", "dstr_sub2", "dstr_append_quiet:m_dstr_append_quiet", "dstr_leftshift:m_dstr_leftshift"]
PROPS["X01"] = dict(
    harness="crypt.c", cbmc=["--sat-solver", "minisat2"],
    proofs=[] + [dict(entry="p_metadata_%d" % t, defs=["SM_TAG=%d" % t], unwind=8, cost=60, replace=R_CM + ["dstr_tou", "dstr_eq", "dstr_eq_consttime", "dstr_copy", "list_append_with_mem", "EVP_OpenInit", "EVP_aes_256_gcm"]) for t in (0, 1, 2, 3, 9)] + [
            dict(entry="p_update", cost=60, replace=R_CR + ["dstr_cmp", "b642bin_stream", "decrypter_parse_metadata", "dstr_grow", "EVP_DecryptUpdate", "EVP_CIPHER_CTX_reset"]),
            dict(entry="p_finish", replace=["dstr_grow", "EVP_CIPHER_CTX_ctrl", "EVP_OpenFinal", "EVP_CIPHER_CTX_reset"]),
            dict(entry="p_start", replace=["dstr_new", "dstr_grow:s_dstr_grow", "EVP_PKEY_get_size", "EVP_CIPHER_CTX_reset"]), "p_consttime"],
    searches=[dict(entry="s_crypt", max_len=400, bmc=False, link=["dstr", "crypto"], ldflags=["-lssl", "-lcrypto"], fuzz_workers=4)],
    functions=["decrypter_start", "decrypter_parse_metadata", "decrypter_update", "decrypter_finish", "dstr_eq_consttime"],
    trusted=["OpenSSL: EVP_OpenInit, EVP_DecryptUpdate, EVP_CIPHER_CTX_ctrl(SET_TAG), EVP_OpenFinal, EVP_CIPHER_CTX_reset (AES-256-GCM: a 16-byte tag verifies only what was encrypted)",
             "contracts of dstr_find, dstr_tou (E02), b642bin_stream (E05), dstr_append/copy/grow (C01), dstr_cmp (C02), list_append_with_mem"],
)

R_EV = ["do_eval", "in_seq_set", "search_headers", "parse_date", "dstr_icount2:e_dstr_icount2", "dstr_sub2"]
PROPS["I03"] = dict(
    harness="search.c", needs_gen=True,
    proofs=["p_in_seq_set", "p_iter", "p_next"] + [dict(entry="p_" + x, replace=["dstr_sub2", "dstr_icmp2", "dstr_icount2"]) for x in ("search_headers", "find_header")]
        + [dict(entry="p_parse_date", replace=["find_header:d_find_header", "imf_parse_date"]), dict(entry="p_eval", replace=R_EV, enter=["do_eval"]), dict(entry="p_entry", replace=["do_eval:t_do_eval"])],
    searches=[dict(entry="s_search", max_len=400, bmc=False, link=["dstr", "imap", "libimaildir/search.c"])],
    functions=["in_seq_set", "ie_seq_set_iter", "ie_seq_set_next", "find_header", "search_headers", "parse_date", "date_a_is_on_b", "date_a_is_before_b", "date_a_is_since_b", "do_eval", "search_key_eval"],
    trusted=["contracts of dstr_icmp2, dstr_icount2 (proved under C02), dstr_sub2 (C01)", "imf_parse_date, imf_parse (the message's headers and body are where the parser says)"],
)

PROPS["C06"] = dict(
    harness="split.c",
    proofs=[dict(entry="p_find", cost=30, cbmc=MINISAT), "p_find_empty", dict(entry="p_split2", cost=60, replace=["dstr_find"]), dict(entry="p_split", cost=60, cbmc=MINISAT, replace=["dstr_find", "list_dstr_t_append:c_list_append"])]
        + [dict(entry="p_" + x, replace=["dstr_find:r_dstr_find", "dstr_append:r_dstr_append", "dstr_leftshift:r_dstr_leftshift"]) for x in ("recode", "recode_stream")],
    searches=[dict(entry="s_split", max_len=400, bmc=False)],
    functions=["dstr_find", "dstr_split", "dstr_split_soft", "_dstr_split2", "_dstr_split2_soft", "dstr_recode", "dstr_recode_stream"],
    trusted=["contract of list append; dstr_append (C01)"],
)

PROPS["M01"] = dict(
    harness="logrec.c", needs_gen=True, unwind=22,
    proofs=["p_message", "p_expunge", "p_key", "p_uidvlds", "p_value_any", "p_key_any", "p_uidvlds_any", "p_name", "p_name_any"],
    searches=[dict(entry="s_logrec", max_len=200, bmc=False, link=["dstr", "imap", "libimaildir/log.c", "libimaildir/msg.c", "libimaildir/name.c"])],
    functions=["log_key_marshal", "log_key_unmarshal", "marshal_uidvlds", "parse_uidvlds", "marshal_date", "parse_date", "marshal_message", "marshal_expunge", "parse_value", "parse_flags", "msg_new", "msg_expunge_new", "maildir_name_write", "maildir_name_mod_hostname", "maildir_name_parse"],
    trusted=["contracts of _fmt (a number is written as 1 to 20 characters, none of them a separator, and reads back as that number), dstr_append (C01), dstr_split* and dstr_recode (C06), dstr_to* (E02), dstr_cmp (C02)"],
)

def _cmd(entry, unit, **kw):
    return dict(entry=entry, defs=["P_UNIT=%d" % unit], **kw)
_ssb = ["seq_set_builder_prep", "seq_set_builder_add_val", "seq_set_builder_extract", "seq_set_builder_free"]
_resp = ["seq_set_to_canonical_uids_dn", "send_no", "send_bad", "send_ok", "dn_gather_updates", "free_response_list"]
PROPS["I06"] = dict(
    harness="cmdset.c", needs_gen=True, unwind=4,
    proofs=[_cmd("p_extract", 1, replace=["seq_set_builder_free"]), _cmd("p_ssb_free", 2), _cmd("p_ssb_add", 2), _cmd("p_ssb_pop", 2),
            _cmd("p_canonical", 3, replace=_ssb), _cmd("p_keys", 4), _cmd("p_nonpeek", 4), _cmd("p_search", 5), _cmd("p_expunge_keys", 7),
            _cmd("p_store", 6, replace=_resp + ["uids_dn_to_msg_keys"]), _cmd("p_copy", 8, replace=_resp + ["uids_dn_to_msg_keys"]), _cmd("p_peek", 12),
            _cmd("p_fetch", 11, replace=_resp + ["nonpeek_msgs", "fetch_is_peek_only", "gather_updates_dont_send", "gather_prep"])],
    searches=[dict(entry="s_cmdset", max_len=120, bmc=False, link=["dstr", "imap", "libimaildir/util.c", "libimaildir/msg.c", "libimaildir/name.c", "libimaildir/search.c"])],
    functions=["seq_set_builder_extract", "seq_set_builder_free", "seq_set_builder_add_range", "seq_set_builder_add_val", "seq_set_builder_del_val", "seq_set_builder_pop_val", "seq_set_to_canonical_uids_dn", "uids_dn_to_msg_keys", "nonpeek_msgs", "dn_search_loop", "loader_close", "get_msg_keys_to_expunge", "store_begin", "copy_begin", "fetch_begin", "fetch_is_peek_only", "exp_flags_new", "index_to_seq_num"],
    trusted=["jsw_atree by contract (one element is followed exactly; exercised natively by the search); set iterator and search keys by contract (proved under I03); sending of responses and requests to the imaildir by contract"],
)
PROPS["I07"] = dict(
    harness="cmdset.c", needs_gen=True, unwind=4,
    proofs=[_cmd("p_store", 6, replace=_resp + ["uids_dn_to_msg_keys"]), _cmd("p_expunge", 9, replace=["get_msg_keys_to_expunge"] + _resp[1:]),
            _cmd("p_disconnect", 10, replace=["get_msg_keys_to_expunge"]), _cmd("p_peek", 12),
            _cmd("p_fetch", 11, replace=_resp + ["nonpeek_msgs", "fetch_is_peek_only", "gather_updates_dont_send", "gather_prep"])],
    searches=[dict(entry="s_cmdset", max_len=120, bmc=False, link=["dstr", "imap", "libimaildir/util.c", "libimaildir/msg.c", "libimaildir/name.c", "libimaildir/search.c"])],
    functions=["store_begin", "expunge_begin", "disconnect_begin", "fetch_begin", "fetch_is_peek_only"],
    trusted=["the imaildir changes the mailbox for this connection only through imaildir_dn_request_update()"],
)
PROPS["M02"] = dict(
    harness="logfile.c", needs_gen=True, unwind=12,
    proofs=[dict(entry="p_compact", defs=["P_UNIT=1"]), dict(entry="p_read", defs=["P_UNIT=2"]),
            dict(entry="p_append", defs=["P_UNIT=3"], replace=["maybe_compact"]), dict(entry="p_open", defs=["P_UNIT=4"], replace=["read_all_keys"])],
    searches=[dict(entry="s_logfile", max_len=200, bmc=False, link=["dstr", "imap", "libimaildir/log_file.c", "libimaildir/log.c", "libimaildir/util.c", "libimaildir/msg.c", "libimaildir/name.c"])],
    functions=["maybe_compact", "read_all_keys", "read_one_value", "set_uidvlds", "set_himodseq_up", "set_explicit_modseq_dn", "update_msg", "update_expunge", "imaildir_log_open", "log_free"],
    trusted=["contracts of stdio, file operations, hashmap, jsw_atree; formats of keys and values (M01)"],
)

_send = ["send_flags_update", "send_expunge", "send_exists_resp", "free_response_list"]
_wire = ["send_fetch_resp", "gather_updates_dont_send", "gather_send_responses", "gather_prep", "gather_free", "send_ok", "send_no", "send_st_resp", "free_response_list"]
PROPS["I08"] = dict(
    harness="dnview.c", needs_gen=True, unwind=4,
    proofs=[_cmd("p_send", 1, replace=_send + ["send_store_fetch_resps"]),
            _cmd("p_updates", 2, cbmc=MINISAT, replace=["gather_update_new", "gather_update_meta", "gather_update_expunge", "gather_free"]),
            _cmd("p_merge", 3, replace=["send_store_resp_noexp", "send_store_resp_noupdate", "send_store_resp_expupdate", "free_response_list"]),
            _cmd("p_new", 4), _cmd("p_meta", 4), _cmd("p_expunge", 4), _cmd("p_storeresp", 4, replace=["send_flags_update"]), _cmd("p_resps", 5), _cmd("p_unseen", 5),
            _cmd("p_fetchresp", 6, replace=["loader_parse_hdrs", "loader_parse_imf", "loader_take_content", "loader_close", "build_fetch_resp_extra"]),
            ] + [_cmd("p_" + x, 7, replace=_wire) for x in ("respond", "postsync", "store", "expunged", "copied", "idle")] + [_cmd("p_update", 9), _cmd("p_dnstore", 7, replace=["store_begin", "store_finish", "dn_free_store"])],
    searches=[dict(entry="s_view", max_len=200, bmc=False, link=["dstr", "imap", "libimaildir/util.c", "libimaildir/msg.c", "libimaildir/name.c", "libimaildir/search.c"])],
    functions=["gather_send_responses", "gather_updates_dont_send", "send_store_fetch_resps", "gather_update_new", "gather_update_meta", "gather_update_expunge", "gathered_new", "send_store_resp_noexp", "send_store_resp_noupdate", "send_store_resp_expupdate", "send_flags_update", "send_expunge", "send_exists_resp", "send_unseen_resp", "send_fetch_resp", "fetch_respond", "fetch_post_sync", "store_finish", "expunge_finish", "copy_finish", "dn_idle", "dn_idle_done", "dn_store", "dn_imaildir_update"],
    trusted=["jsw_atree by contract (one element is followed exactly; exercised natively by the search)", "the imaildir sends updates only for messages in the session's view, and new messages have larger UIDs than all others", "construction of IMAP responses by contract", "fewer than 2^48 messages and updates"],
)

PROPS["I09"] = dict(
    harness="dnview.c", needs_gen=True, unwind=6,
    proofs=[_cmd("p_extra", 8, replace=["loader_parse_hdrs", "loader_parse_imf", "loader_take_content", "copy_hdr_fields", "copy_hdr_fields_not"]),
            _cmd("p_fields", 10)],
    searches=[dict(entry="s_parts", max_len=160, bmc=False, link=["dstr", "imap", "libimaildir/util.c", "libimaildir/msg.c", "libimaildir/name.c", "libimaildir/search.c"])],
    functions=["build_fetch_resp_extra", "build_sect_txt_content_resp", "copy_hdr_fields", "copy_hdr_fields_not", "imf_copy_hdr_fields", "imf_copy_hdr_fields_not"],
    trusted=["loading and parsing a message by contract: loader_parse_hdrs(), loader_parse_imf(), imf_get_submessage() (which part of the text a section number names is only exercised natively)", "comparison of header names by contract (C02); construction of IMAP responses by contract"],
)
