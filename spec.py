"""What is decided, per property: the jobs handed to the verifier.

mode "P": contract enforced with goto-instrument --dfcc (all inputs).
mode "B": harness with executable postconditions; "bound" states the bound, and
          no "bound" means that the harness covers the full input domain.
"""

PROPS = {}


def prop(pid, level, explanation, jobs, assumptions=()):
    assert len({j["name"] for j in jobs}) == len(jobs), pid
    for j in jobs:
        j.setdefault("unwind", 8)
    PROPS[pid] = {"level": level, "explanation": explanation, "jobs": jobs, "assumptions": list(assumptions)}


def B(name, harness, entry, sources, unwind, bound=None, **kw):
    return dict(name=name, mode="B", harness=harness, entry=entry, sources=sources, unwind=unwind, bound=bound, **kw)


def P(name, harness, entry, sources, enforce, unwind=8, **kw):
    return dict(name=name, mode="P", harness=harness, entry=entry, sources=sources, enforce=enforce, unwind=unwind, **kw)


def I(name, harness, entry, sources, unwind, replace_calls, bound=None, **kw):
    """Modular: calls of the named functions are replaced by contract stubs."""
    return dict(name=name, mode="I", harness=harness, entry=entry, sources=sources, unwind=unwind,
                replace_calls=replace_calls, bound=bound, native=True, **kw)


def F(name, harness, entry, sources, **kw):
    """Not part of the verdict: search for a failing input after a rejected obligation."""
    return dict(name=name, mode="F", harness=harness, entry=entry, sources=sources, **kw)


BER = ["iso8825_ber.c"]
prop("C01", "proof", "", [
    P("tag_contract", "ber.c", "p_tag", BER, "iso8825_ber_tag_decode", defines=["P_TAG"], unwind=6),
    P("definite_contract", "ber.c", "p_def", BER, "iso8825_ber_decode", defines=["P_DEF"], unwind=6, replace=["iso8825_ber_tag_decode"]),
    B("tag", "ber.c", "b_tag", BER, 8, functions=["iso8825_ber_tag_decode"]),
    B("definite", "ber.c", "b_def", BER, 6, bound="data up to 12 octets", unwindset={"vp_fill.0": 13, "iso8825_ber_decode": 1}),
    B("definite_long", "ber.c", "b_def_long", BER, 6, bound="data 10..70000 octets", unwindset={"vp_fill.0": 13, "iso8825_ber_decode": 1}),
])
prop("C02", "other", "", [
    P("recursive_contract", "ber.c", "p_rec", BER, "iso8825_ber_decode", defines=["P_REC"], unwind=7, rec=True,
      loops={"iso8825_ber.c": {"iso8825_ber_decode": {"count": 2, 0: """
        __CPROVER_assigns(tlv->length, eoc_len)
        __CPROVER_loop_invariant(offset <= len && tlv->length <= len - offset && eoc_len == 0)
        __CPROVER_loop_invariant(tlv->value == buf + offset)
        __CPROVER_decreases(len - offset - tlv->length)""", 1: """
        __CPROVER_assigns(i, offset, tlv->length)
        __CPROVER_loop_invariant(i <= octet_count && offset == __CPROVER_loop_entry(offset) + i)
        __CPROVER_decreases(octet_count - i)"""}}},
      replace=["iso8825_ber_tag_decode"]),
    P("inductive_contract", "ber.c", "p_ind", BER, "iso8825_ber_decode", 13, rec=True, bound="data up to 16 octets, any nesting",
      object_bits=12, defines=["MAXLEN=16", "P_IND"], unwindset={"vp_fill.0": 25, "p_ind.0": 26}, replace=[]),
    F("indefinite", "ber.c", "b_indef", BER, defines=["MAXLEN=16", "INDEF_DEPTH=8"]),
])
prop("C03", "proof", "", [
    I("iterator_step", "ber.c", "i_itr", BER, 4, {"iso8825_ber_decode": "stub_itr_decode"}, functions=["iso8825_ber_itr_init", "iso8825_ber_itr_next"]),
    F("iterator", "ber.c", "b_itr", BER, defines=["MAXLEN=16", "INDEF_DEPTH=8"]),
])
prop("C25", "other", "", [
    P("oid_contract", "ber.c", "p_oid", BER, "iso8825_ber_oid_decode", defines=["P_OID"], unwind=7,
      loops={"iso8825_ber.c": {"iso8825_ber_oid_decode": {"count": 2, 0: """
        __CPROVER_assigns(buf, len, __CPROVER_object_whole(oid))
        __CPROVER_loop_invariant(len <= __CPROVER_loop_entry(len))
        __CPROVER_loop_invariant(buf == __CPROVER_loop_entry(buf) + (__CPROVER_loop_entry(len) - len))
        __CPROVER_loop_invariant((oid->length == 0 && len == __CPROVER_loop_entry(len)) || (oid->length >= 2 && oid->length <= 10))
        __CPROVER_loop_invariant((oid->length && *__CPROVER_loop_entry(buf) < 0x80) ==> (oid->value[0] == (*__CPROVER_loop_entry(buf) < 40 ? 0 : *__CPROVER_loop_entry(buf) < 80 ? 1 : 2)))
        __CPROVER_loop_invariant((oid->length && *__CPROVER_loop_entry(buf) < 0x80) ==> (oid->value[1] == *__CPROVER_loop_entry(buf) - 40 * oid->value[0]))
        __CPROVER_decreases(len)""", 1: """
        __CPROVER_assigns(buf, len, subid)
        __CPROVER_loop_invariant(len <= __CPROVER_loop_entry(len))
        __CPROVER_loop_invariant(buf == __CPROVER_loop_entry(buf) + (__CPROVER_loop_entry(len) - len))
        __CPROVER_loop_invariant(len == __CPROVER_loop_entry(len) ? subid == 0 : (*__CPROVER_loop_entry(buf) & 0x80) != 0)
        __CPROVER_decreases(len)"""}}}),
    B("oid", "ber.c", "b_oid", BER, 12, bound="OID up to 11 octets", defines=["OIDLEN=11"]),
])

TLV = ["emv_tlv.c", "iso8825_ber.c"]
prop("C04", "other", "", [
    I("parse_level", "tlv.c", "i_parse", TLV, 7, {"emv_tlv_parse": "stub_parse", "iso8825_ber_itr_init": "stub_itr_init", "iso8825_ber_itr_next": "stub_itr_next"},
      late=True, alloc=True, bound="up to 4 fields per level, any nesting", functions=["emv_tlv_parse"]),
    F("parse", "tlv.c", "f_parse", TLV, alloc=True),
])
prop("C05", "other", "", [
    B("push", "tlv.c", "b_push", TLV, 9, alloc=True, bound="lists of up to 4 fields"),
    B("pop", "tlv.c", "b_pop", TLV, 9, alloc=True, bound="lists of up to 3 fields"),
    B("find", "tlv.c", "b_find", TLV, 9, alloc=True, bound="lists of up to 3 fields"),
    B("append", "tlv.c", "b_append", TLV, 9, alloc=True, bound="lists of up to 3+3 fields"),
    P("push_contract", "tlv.c", "p_push", TLV, "emv_tlv_list_push", 7, defines=["P_PUSH"]),
])
TLV1 = ["emv_tlv.c"]
prop("C13", "other", "", [
    B("n_encode", "fmt.c", "b_n_encode", TLV1, 14, bound="buffers up to 4 octets, all values below 2^16"),
    B("n_encode_5", "fmt.c", "b_n_encode", TLV1, 14, bound="buffer of 5 octets, all values below 2^20", defines=["NBITS=20", "LEN=5"]),
    B("n_encode_6", "fmt.c", "b_n_encode", TLV1, 14, bound="buffer of 6 octets, all values below 2^20", defines=["NBITS=20", "LEN=6"]),
    B("n_encode_windows_6", "fmt.c", "b_n_encode_windows", TLV1, 14, bound="10 windows of 256 values around digit and word boundaries up to 2^32-1, 6 octets", defines=["LEN=6"]),
    B("n_encode_windows_4", "fmt.c", "b_n_encode_windows", TLV1, 14, bound="10 windows of 256 values around digit and word boundaries up to 2^32-1, 4 octets", defines=["LEN=4"]),
    B("n_decode", "fmt.c", "b_n_decode", TLV1, 14, bound="buffers up to 4 octets", defines=["NLEN=4"]),
    B("n_decode_5", "fmt.c", "b_n_decode", TLV1, 14, bound="buffers of 5 octets", defines=["NLEN=5", "FIXLEN"]),
    B("n_decode_6", "fmt.c", "b_n_decode", TLV1, 14, bound="buffers of 6 octets, the middle ones those of 2^32-1", defines=["NLEN=6", "FIXLEN"]),
    B("b", "fmt.c", "b_b", TLV1, 10, bound="buffers up to 8 octets"),
    B("null", "fmt.c", "b_fmt_null", TLV1, 4),
])
prop("C14", "other", "", [
    B("non_control", "fmt.c", "b_format_ans_to_non_control_str", TLV1, 11, bound="input up to 8 octets", defines=["SLEN=8"]),
    B("alnum_space", "fmt.c", "b_format_ans_to_alnum_space_str", TLV1, 11, bound="input up to 8 octets", defines=["SLEN=8"]),
    B("hex", "fmt.c", "b_hex", TLV1, 11, bound="input up to 4 octets"),
    B("null", "fmt.c", "b_fmt_null", TLV1, 4),
])
DOL = ["emv_dol.c", "emv_tlv.c", "iso8825_ber.c"]
prop("C06", "other", "", [
    P("decode_contract", "dol.c", "p_dec", DOL, "emv_dol_decode", 6, defines=["P_DEC"], replace=["iso8825_ber_tag_decode"]),
    P("length_contract", "dol.c", "p_len", DOL, "emv_dol_compute_data_length", 8, defines=["P_LEN"], replace=["emv_dol_itr_init", "emv_dol_itr_next"],
      loops={"emv_dol.c": {"emv_dol_compute_data_length": {"count": 1, 0: """
        __CPROVER_assigns(r, total, itr, entry, ghost_sum, ghost_left, ghost_err)
        __CPROVER_loop_invariant(ghost_err == 0 && itr.len == ghost_left && ghost_left <= len)
        __CPROVER_loop_invariant(total >= 0 && (size_t)total == ghost_sum && ghost_sum <= ((len - ghost_left) << 8))
        __CPROVER_decreases(ghost_left)"""}}}, prelude="extern __CPROVER_size_t ghost_sum, ghost_left; extern int ghost_err;\n"),
    B("dol", "dol.c", "b_dol", DOL, 10, bound="DOL up to 9 octets", functions=["emv_dol_decode", "emv_dol_itr_init", "emv_dol_itr_next", "emv_dol_compute_data_length"]),
    I("build_entry", "dol.c", "i_build", DOL, 18, {"emv_dol_itr_init": "stub_dol_itr_init", "emv_dol_itr_next": "stub_dol_itr_next", "emv_tlv_list_find": "stub_find"},
      mem=True, unwindset={"vp_memcpy.0": 8, "vp_memset.0": 8, "emv_dol_build_data.0": 4, "emv_dol_build_data.1": 4, "emv_dol_build_data.2": 4}, defines=["NE=1", "NS=2", "EL=6", "VL=8"],
      bound="1 entry of up to 6 octets, 2 sources, fields up to 8 octets", functions=["emv_dol_build_data"]),
    I("build_entries", "dol.c", "i_build", DOL, 18, {"emv_dol_itr_init": "stub_dol_itr_init", "emv_dol_itr_next": "stub_dol_itr_next", "emv_tlv_list_find": "stub_find"},
      mem=True, unwindset={"vp_memcpy.0": 5, "vp_memset.0": 5, "emv_dol_build_data.0": 4, "emv_dol_build_data.1": 4, "emv_dol_build_data.2": 4}, defines=["NE=2", "NS=1", "EL=3", "VL=4"],
      bound="up to 2 entries of up to 3 octets, 1 source, fields up to 4 octets", functions=["emv_dol_build_data"]),
    B("build_long", "dol.c", "b_build_long", DOL, 300, unwindset={"emv_dol_build_data.0": 3, "emv_dol_build_data.1": 3, "emv_dol_build_data.2": 3}, cover=False, cost=60, bound="lists of one concrete entry: 6 combinations of entry and field length up to 255 and 300 octets"),
    F("build", "dol.c", "b_build", DOL, defines=["BE=3", "BV=260", "BL=255"], alloc=True),
    B("terminal_n", "dol.c", "b_terminal_n", DOL, 18, functions=["emv_tlv_is_terminal_format_n"], cover=False),
])
TTL = ["emv_ttl.c"]
_trx = ["emv_ttl_trx", "iso7816_apdu_case"]
prop("C07", "other", "",
     [B("trx_%s_%d" % (m.lower(), n), "ttl.c", "b_trx", TTL, 12, bound="%s mode, command of %d octets, up to 4 responses of up to 6 octets" % (m, n), mem=True,
        defines=["MODE=EMV_CARDREADER_MODE_" + m, "CLENFIX=%d" % n, "KX=5", "RL=6", "CAP=10"], functions=_trx, cover=n in (5, 8)) for m in ("APDU", "TPDU") for n in (3, 4, 5, 6, 7, 8)] +
     [B("null", "ttl.c", "b_trx_null", TTL, 12)])
_x = {"emv_ttl_trx": "stub_trx"}
_xu = {"vp_fill.0": 260, "vp_memcpy.0": 260, "x_result.0": 260}
def _cmd(name, entry, fns, gs=(256, 255, 300), **kw):
    return [I("%s_%d" % (name, g), "ttl.c", entry, TTL, 24, _x, unwindset=_xu, mem=True, defines=["XG=%d" % g], functions=fns, cover=g == 256,
              bound="output buffers of 255, 256 and 300 octets; responses of 2, 40 and 258 octets" + kw.get("b", ""), optional_stubs=["stub_trx"] if g == 255 else []) for g in gs]
prop("C08", "other", "",
    _cmd("select", "i_select", ["emv_ttl_select_by_df_name", "emv_ttl_select_by_df_name_next"]) +
    _cmd("read_record", "i_read_record", ["emv_ttl_read_record"]) +
    _cmd("gpo", "i_gpo", ["emv_ttl_get_processing_options"], b="; data up to 12 octets") +
    _cmd("gpo_long", "i_gpo_long", ["emv_ttl_get_processing_options"], gs=(256,), b="; data of 240 to 300 octets") + [
    I("null", "ttl.c", "i_null", TTL, 24, _x, unwindset=_xu, cover=False, optional_stubs=["stub_trx"]),
    B("case", "ttl.c", "b_case", TTL, 4, functions=["iso7816_apdu_case"]),
])
FLD = ["emv_fields.c"]
prop("C09", "proof", "", [
    P("next_contract", "fields.c", "p_afl", FLD, "emv_afl_itr_next", 6, defines=["P_AFL"]),
    B("afl", "fields.c", "b_afl", FLD, 9, functions=["emv_afl_itr_init", "emv_afl_itr_next"]),
])
prop("C10", "proof", "", [
    P("init_contract", "fields.c", "p_cvmi", FLD, "emv_cvmlist_itr_init", 6, defines=["P_CVMI"]),
    P("next_contract", "fields.c", "p_cvm", FLD, "emv_cvmlist_itr_next", 6, defines=["P_CVM"]),
    B("cvm", "fields.c", "b_cvm", FLD, 10, functions=["emv_cvmlist_itr_init", "emv_cvmlist_itr_next"]),
])
prop("C20", "proof", "", [
    B("aid", "fields.c", "b_aid", FLD, 32, functions=["emv_aid_get_info"]),
])
prop("C21", "proof", "", [
    P("format_contract", "fields.c", "p_iad", FLD, "emv_iad_get_format", 6, defines=["P_IAD"]),
    B("format", "fields.c", "b_iad", FLD, 36, bound="data up to 34 octets", functions=["emv_iad_get_format"]),
])
ATR = ["iso7816.c", "iso7816_compact_tlv.c"]
_ax = dict(mem=True, unwindset={"vp_memset.0": 500}, functions=["iso7816_atr_parse"])
prop("C11", "other", "", [
    B("structure_%d" % i, "atr.c", "b_atr_structure", ATR, 35, defines=["LO=%d" % i, "HI=%d" % (i + 8)], cost=15, cover=i % 64 == 0,
      bound="544 arrangements of interface octets (all pairs of neighbouring levels), all values of their octets, at most 1 historical byte", **_ax) for i in range(0, 544, 8)] + [
    B("hist_%d_T%d" % (k, t), "atr.c", "b_atr_hist", ATR, 35, defines=["KH=%d" % k, "TT=%d" % t], cost=20, cover=k == 6,
      bound="0 to 15 historical bytes, no TA, TB, TC", **_ax) for t in (0, 1) for k in range(16)] + [
    B("length_T%d_%d" % (t, e), "atr.c", "b_atr_short", ATR, 35, defines=["TT=%d" % t, "ELO=%d" % e, "EHI=%d" % (e + 5)], cover=False,
      bound="lengths 10 less to 10 more than one arrangement needs", **_ax) for t in (0, 1) for e in (-10, -5, 0, 5)] + [
    B("size", "atr.c", "b_atr_size", ATR, 35, **_ax),
    B("null", "atr.c", "b_atr_null", ATR, 4),
])
prop("C22", "proof", "", [
    P("next_contract", "atr.c", "p_ctlv", ATR, "iso7816_compact_tlv_itr_next", 6, defines=["P_CTLV"]),
    B("compact_tlv", "atr.c", "b_ctlv", ATR, 20, bound="data up to 17 octets", functions=["iso7816_compact_tlv_decode", "iso7816_compact_tlv_itr_init", "iso7816_compact_tlv_itr_next"]),
])
prop("C12", "proof", "", [
    I("emv_atr", "atr.c", "i_emv_atr", ["emv.c"], 40, {"iso7816_atr_parse": "stub_atr_parse"}, defines=["VP_EMV"], mem=True, unwindset={"vp_memset.0": 500}, functions=["emv_atr_parse"]),
    F("emv_atr_search", "atr.c", "f_emv_atr", ["emv.c"] + ATR, defines=["VP_EMV"]),
])
APP = ["emv_app.c", "emv_tlv.c"]
prop("C15", "other", "", [
    B("supported", "app.c", "b_supported", APP, 20, bound="2 terminal AIDs, all AIDs up to 16 octets", defines=["AIDMAX=16", "NAID=2"], functions=["emv_app_is_supported"]),
    B("supported_list", "app.c", "b_supported", APP, 12, bound="4 terminal AIDs, all AIDs up to 6 octets", defines=["AIDMAX=6", "NAID=4"], functions=["emv_app_is_supported"]),
])
prop("C16", "other", "", [
    B("sort_%d" % i, "app.c", "b_app_sort", APP, 9, defines=["NFIX=%d" % i], alloc=True, cover=i == 4, bound="lists of up to 4 applications", functions=["emv_app_list_sort_priority"]) for i in range(5)] + [
    B("list", "app.c", "b_app_list", APP, 9, alloc=True, bound="lists of up to 4 applications", functions=["emv_app_list_push", "emv_app_list_pop", "emv_app_list_remove_index", "emv_app_list_selection_is_required", "emv_app_list_is_empty", "emv_app_list_clear", "emv_app_free"]),
])
_capp = {"iso8825_ber_decode": "stub_ber_decode", "emv_tlv_parse": "stub_app_parse", "iso8859_is_supported": "stub_is_supported", "iso8859_to_utf8": "stub_to_utf8",
         "emv_format_ans_to_non_control_str": "stub_non_control", "emv_format_ans_to_alnum_space_str": "stub_alnum", "emv_format_b_to_str": "stub_b_to_str"}
prop("C17", "other", "", [
    I("create", "app.c", "i_create", APP, 9, _capp, alloc=True, bound="up to 4 fields of up to 2 octets", functions=["emv_app_create_from_fci", "emv_app_create_from_pse"]),
    F("create_search", "app.c", "f_create", APP, alloc=True),
])
TAL = ["emv_tal.c", "emv_tlv.c", "emv_app.c"]
KER = ["emv.c", "emv_tlv.c", "emv_app.c"]
_mem = dict(alloc=True, mem=True)
_parse = {"emv_tlv_parse": "stub_parse", "iso8825_ber_decode": "stub_ber_decode"}
prop("C18", "other", "", [
    I("read_afl_%s" % "_".join(map(str, c)), "tal.c", "b_read_afl", TAL, 9, _parse, defines=["V_REC", "CFG={" + ",".join(map(str, c)) + "}", "FIRST=%d" % (len(c) % 2)], alloc=True, object_bits=10,
      bound="AFL with up to 4 records in up to 4 entries", functions=["emv_tal_read_afl_records", "emv_tal_read_sfi_records"])
    for c in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [1, 1, 1])] + [
    I("get_processing_options", "tal.c", "b_gpo", TAL, 18, _parse, defines=["V_GPO"], alloc=True, mem=True, bound="responses with up to 3 fields, AFL of up to 12 octets", functions=["emv_tal_get_processing_options"]),
    B("initiate", "kernel.c", "b_initiate", KER, 18, bound="2 fields in each list", object_bits=10, functions=["emv_initiate_application_processing"], **_mem),
    B("read_application_data", "kernel.c", "b_read_data", KER, 18, bound="records with up to 5 fields", object_bits=10, functions=["emv_read_application_data"], **_mem),
] + [
    B("context_%s" % ("clear" if c else "reset"), "kernel.c", "b_ctx", KER, 6, bound="1 field in each list", object_bits=10, defines=["CLEAR=%d" % c], cover=c == 0, functions=["emv_ctx_init", "emv_ctx_reset", "emv_ctx_clear"], alloc=True) for c in (0, 1)
])
prop("C26", "other", "", [
    I("select_app", "tal.c", "b_select", TAL, 22, {"emv_app_create_from_fci": "stub_from_fci"}, defines=["V_SEL"], alloc=True, mem=True, unwindset={"vp_memset.0": 300}, functions=["emv_tal_select_app"]),
    B("select_application", "kernel.c", "b_select_application", KER, 18, bound="up to 3 candidates", object_bits=10, unwindset={"vp_memset.0": 200}, functions=["emv_select_application"], **_mem),
])
prop("C19", "other", "", [
    I("read_pse_%s" % "_".join(map(str, c)), "tal.c", "b_pse", TAL, 16, dict(_parse, iso8825_ber_itr_init="stub_itr_init", iso8825_ber_itr_next="stub_itr_next", emv_app_create_from_pse="stub_from_pse", emv_app_is_supported="stub_supported"),
      object_bits=10, defines=["V_PSE", "CFG={" + ",".join(map(str, c)) + "}", "ENDR=%d" % -(len(c) % 2)], alloc=True, mem=True, unwindset={"vp_memset.0": 300},
      bound="up to 3 records of up to 2 data elements", functions=["emv_tal_read_pse", "emv_tal_parse_aef_record"])
    for c in ([2, 1], [1, 2], [2, 0, 1], [0, 1, 1])] + [
    I("read_pse_all", "tal.c", "b_pse_all", TAL, 260, dict(_parse, emv_app_create_from_pse="stub_from_pse", emv_app_is_supported="stub_supported"), optional_stubs=["stub_parse", "stub_ber_decode", "stub_from_pse", "stub_supported"],
      object_bits=12, defines=["V_PSE"], alloc=True, functions=["emv_tal_read_pse"]),
    I("find_supported_apps", "tal.c", "b_aids", TAL, 9, {"emv_app_create_from_fci": "stub_from_fci"}, defines=["V_AIDS"], alloc=True, mem=True, unwindset={"vp_memset.0": 300},
      bound="2 terminal AIDs, 4 applications found", functions=["emv_tal_find_supported_apps"]),
] + [
    B("candidates_%d_%d" % c, "kernel.c", "b_candidates", KER, 9, bound="up to 2 applications", object_bits=10, defines=["PN=%d" % c[0], "FN=%d" % c[1]], cover=c == (2, 2), functions=["emv_build_candidate_list"], **_mem)
    for c in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 2))
])
DBG = {"vsnprintf": "stub_vsnprintf", "timespec_get": "stub_timespec_get", "clock_gettime": "stub_clock_gettime"}
prop("C24", "other", "", [
    I("filter", "debug.c", "i_filter", ["emv_debug.c"], 4, DBG, defines=["VP_REAL_DEBUG"], functions=["emv_debug_init", "emv_debug_internal"]),
    I("clock", "debug.c", "i_clock", ["emv_debug.c"], 4, DBG, bound="windows of 256 s and 512 us", defines=["VP_REAL_DEBUG", "CLOCK"]),
    I("macros", "debug.c", "i_macros", ["emv_debug.c"], 4, DBG, defines=["VP_REAL_DEBUG"]),
])
prop("C23", "other", "", [
    P("simple_contract", "iso8859.c", "p_simple", ["iso8859_simple.c"], "iso8859_to_utf8", 7, defines=["P_SIMPLE"],
      loops={"iso8859_simple.c": {"iso8859_to_utf8": {"count": 1, 0: """
        __CPROVER_assigns(i, utf8_idx, __CPROVER_object_whole(utf8))
        __CPROVER_loop_invariant(i <= iso8859_len && utf8_idx < utf8_len && utf8_idx >= i && utf8_idx <= 2 * i)
        __CPROVER_loop_invariant(i == 0 ? utf8[0] == 0 : utf8_idx > 0)
        __CPROVER_loop_invariant(i > 0 ==> (iso8859[0] != 0 && (iso8859[0] < 0x80 ? utf8[0] == (char)iso8859[0] : utf8[0] == (char)(iso8859[0] < 0xC0 ? 0xC2 : 0xC3))))
        __CPROVER_loop_invariant(i > 0 ==> !(iso8859[0] < 0x20 || (iso8859[0] > 0x7E && iso8859[0] < 0xA0)))
        __CPROVER_decreases(iso8859_len - i)"""}}}),
    B("simple", "iso8859.c", "b_simple", ["iso8859_simple.c"], 12, bound="up to 4 characters", defines=["MAXLEN=4"], functions=["iso8859_is_supported", "iso8859_to_utf8"]),
    B("null", "iso8859.c", "b_null", ["iso8859_simple.c"], 4),
    I("iconv", "iso8859.c", "i_iconv", ["iso8859_iconv.c"], 16, {"snprintf": "stub_snprintf", "iconv_open": "stub_iconv_open", "iconv": "stub_iconv", "iconv_close": "stub_iconv_close"},
      bound="up to 6 characters, results of up to 14 octets"),
])
STRFN = {"vsnprintf": "stub_vsnprintf", "snprintf": "stub_snprintf", "strncpy": "stub_strncpy"}
AIDUW = {}
STRUW = {"format.0": 140, "format.1": 140, "str_length.0": 140, "stub_strncpy.0": 140, "vp_fill.0": 50}
STR1 = ["emv_strings.c"]


def S(fn, maxin=8, unwind=None, uw=None, entry="i_dec", d=(), maxout=24, suffix="", **kw):
    us = dict(STRUW)
    us.update(uw or {})
    return I(fn + suffix, "strings.c", entry, STR1, unwind or max(maxin, maxout) + 2, STRFN,
             bound="data up to %d octets, strings up to %d octets" % (maxin, maxout), unwindset=us,
             defines=["FN=" + fn if entry == "i_dec" else "FN1=" + fn, "MAXIN=%d" % maxin, "MAXOUT=%d" % maxout] + list(d), object_bits=10, optional_stubs=sorted(STRFN.values()), **kw)


prop("C27", "other", "", [
    S(f, 8, d=["PARTIAL"]) for f in ["emv_format_a_get_string", "emv_format_an_get_string", "emv_format_ans_only_space_get_string", "emv_format_ans_ccs_get_string", "emv_format_cn_get_string"]
] + [
    S("emv_format_n_get_string", 4, d=["NO_NULL"], maxout=10),
    S("emv_amount_get_string", 5, maxout=14),
    S("emv_track2_equivalent_data_get_string", 10),
] + [
    S(f, 6) for f in ["emv_date_get_string", "emv_time_get_string", "emv_mcc_get_string", "emv_term_caps_get_string_list", "emv_addl_term_caps_get_string_list", "emv_aip_get_string_list",
                      "emv_app_usage_control_get_string_list", "emv_cvm_results_get_string_list", "emv_tvr_get_string_list", "emv_tsi_get_string_list", "emv_ttq_get_string_list", "emv_ctq_get_string_list",
                      "emv_visa_form_factor_indicator_get_string_list", "emv_amex_enh_cl_reader_caps_get_string_list"]
] + [
    S("emv_terminal_risk_management_data_get_string_list", 9),
    S("emv_aid_get_string", 17, uw=AIDUW),
    S("emv_asrpd_get_string_list", 12), S("emv_afl_get_string_list", 8), S("emv_cvm_list_get_string_list", 12), S("emv_app_reference_currency_get_string_list", 4), S("emv_language_preference_get_string_list", 4),
    S("emv_iad_get_string_list", 33), S("emv_mastercard_third_party_data_get_string_list", 13, uw={"emv_mastercard_device_type_get_string.0": 60}), S("emv_issuer_auth_data_get_string_list", 12),
    S("emv_auth_response_code_get_string", 3, uw={"emv_arc_get_desc.0": 200}),
    S("emv_capdu_get_string", 12, maxout=16, d=["NO_SELECT"]), S("emv_capdu_get_string", 12, maxout=16, d=["SELECT"], suffix="_select"),
] + [
    S(f, entry="i_dec1") for f in ["emv_transaction_type_get_string", "emv_term_type_get_string_list", "emv_pos_entry_mode_get_string", "emv_account_type_get_string", "emv_cid_get_string_list", "emv_amex_cl_reader_caps_get_string"]
])
_dec = {f: "stub_" + f for f in [j["name"] for j in PROPS["C27"]["jobs"] if not j["name"].endswith("_select")]}
PROPS["C27"]["jobs"] += [
    I("emv_tlv_get_info_%d" % n, "strings.c", "i_info", STR1, 50, dict(STRFN, **_dec), bound="values up to 20 octets, string of %d octets" % n,
      unwindset=dict(STRUW, **{"vp_memset.0": 200}), defines=["INFO", "MAXIN=20", "MAXOUT=%d" % max(n, 1), "OUTLEN=%d" % n], object_bits=10, optional_stubs=sorted(STRFN.values())) for n in (0, 1, 16, 48)]
PROPS["C27"]["jobs"] += [
    I("iso7816_" + n, "strings.c", e, ["iso7816_strings.c"], 100, STRFN, bound="strings up to 44 octets" if n != "lcs_get_string" else None, unwindset=dict(STRUW), functions=["iso7816_" + n],
      defines=["ISO", "MAXOUT=44"], object_bits=10, optional_stubs=sorted(STRFN.values()))
    for n, e in (("sw1sw2_get_string", "i_sw"), ("card_service_data_get_string_list", "i_service"), ("lcs_get_string", "i_lcs"))]
PROPS["C27"]["jobs"] += [
    I("iso7816_card_capabilities_get_string_list_%d" % n, "strings.c", "i_caps", ["iso7816_strings.c"], 80, STRFN, bound="string of %d octets" % n, unwindset=dict(STRUW, **{"vp_fill.0": 80}),
      functions=["iso7816_card_capabilities_get_string_list"], defines=["ISO", "MAXOUT=%d" % n, "OUTFIX=%d" % n], object_bits=10, optional_stubs=sorted(STRFN.values()))
    for n in (1, 31, 70)]
TXT = ["emv_strings.c", "emv_tlv.c"]


def T(name, entry, unwind, d, bound=None, **kw):
    return B(name, "text.c", entry, TXT, unwind, bound=bound, defines=list(d), **kw)


prop("C28", "other", "", [
    T("date", "b_date", 15, ["V_DT", "MAXOUT=13"], functions=["emv_date_get_string"], bound="strings up to 13 octets"),
    T("time", "b_time", 15, ["V_DT", "MAXOUT=11"], functions=["emv_time_get_string"], bound="strings up to 11 octets"),
    T("cn", "b_cn", 15, ["V_DIG", "MAXIN=5", "MAXOUT=13"], functions=["emv_format_cn_get_string"], bound="values up to 5 octets"),
    T("track2", "b_track2", 15, ["V_DIG", "MAXIN=5", "MAXOUT=13"], functions=["emv_track2_equivalent_data_get_string"], bound="values up to 5 octets"),
] + [
    T(f, "b_chars", 15, ["V_CHR=%d" % i, "MAXIN=6", "MAXOUT=9"], functions=["emv_%s_get_string" % f], bound="values up to 6 octets")
    for i, f in enumerate(["format_a", "format_an", "format_ans_only_space", "format_ans_ccs"])
] + [
    T("amount_1", "b_amount_1", 15, ["V_NUM", "MAXOUT=5", "LEN=1", "HIGH={}", "BIG=0", "BASE=0"], functions=["emv_amount_get_string"], bound="1 octet"),
    T("amount_2", "b_amount", 15, ["V_NUM", "MAXOUT=7", "LEN=1", "HIGH={}", "BIG=0", "BASE=0"], functions=["emv_amount_get_string"], bound="2 octets"),
] + [
    T("amount_window_%d" % b, "b_amount_window", 15, ["V_NUM", "MAXOUT=12", "LEN=1", "HIGH={}", "BIG=0", "BASE=%du" % b], cover=False, functions=["emv_amount_get_string"], bound="256 values from %d" % b)
    for b in (99872, 999872, 99999872, 999999872, 1999999999, 4294967040)
] + [
    T("format_n_%d_%s" % (n, h.replace(",", "_").replace("0x", "")), "b_format_n", 15, ["V_NUM", "MAXOUT=%d" % (12 if n > 2 else 6), "LEN=%d" % n, "HIGH={%s}" % h, "BIG=%d" % b, "BASE=0"],
      functions=["emv_format_n_get_string"], cover=n == 2, bound="%d octets, all but the last one or two fixed" % n if n > 2 else "%d octets" % n)
    for n, h, b in ((1, "", 0), (2, "", 0), (6, "0,0,0,0", 0), (6, "0,0,0,0x10,0", 0), (6, "0,0x42,0x94,0x96,0x71", 0), (6, "0,0x42,0x94,0x96,0x73", 1), (6, "0x12,0,0,0,0", 1))
] + [
    T("pack_cn", "b_pack_cn", 15, ["V_PACK", "MAXIN=7", "MAXOUT=4"], functions=["emv_str_to_format_cn"], bound="text up to 7 characters, values up to 4 octets"),
    T("pack_n", "b_pack_n", 15, ["V_PACK", "MAXIN=7", "MAXOUT=4"], functions=["emv_str_to_format_n"], bound="text up to 7 characters, values up to 4 octets"),
])


# The PC/SC functions are contract stubs at link level
_PC = dict(repo_defines=["USE_PCSCLITE", "memcpy=pc_memcpy", "malloc=pc_malloc", "calloc=pc_calloc", "free=pc_free", "HAVE_ARPA_INET_H"])


def R(name, entry, unwind, d=(), **kw):
    return B(name, "pcsc.c", entry, ["pcsc.c"], unwind, defines=list(d), **_PC, **kw)


_FX = "FIXED={0x12,4,0x42,0,0,1,0x0A,4,0x42,0,0,2,0x11,4,0x42,0,0,3}"
prop("C29", "other", "", [
    R("init_%d%s" % (n, t), "b_init", 20, ["NR=%d" % n] + d, functions=["pcsc_init", "pcsc_release", "pcsc_get_reader_count", "pcsc_get_reader", "pcsc_reader_get_name"], bound="%d readers, %s" % (n, b))
    for n, t, d, b in [(0, "", [], "no failure"), (1, "", [], "no failure")] + [(2, "", [], "no failure")]
    + [(2, "_alloc%d" % k, ["FAIL_ALLOC=%d" % k], "allocation %d fails" % k) for k in (1, 2, 3, 4)]
    + [(2, "_call%d" % k, ["FAIL_CALL=%d" % k], "PC/SC call %d fails" % k) for k in range(1, 10)]
    + [(1, "_feat%d" % k, ["NF=3", _FX, "FAIL_CALL=%d" % k], "3 features, PC/SC call %d fails" % k) for k in range(4, 10)]
] + [
    R("features_%d" % n, "b_props", 20, ["NFEAT=%d" % n, "NF=%d" % (n // 6), "NPROPS=3", "NP=3"], functions=["pcsc_init", "pcsc_reader_has_feature", "pcsc_reader_get_property"], cover=n == 6, unwindset={"pcsc_reader_get_property.0": 4, "pc_memcpy.0": 8}, bound="feature list of %d octets, 3 octets of properties" % n)
    for n in (1, 6, 7, 12, 18)
] + [
    R("properties_%d" % n, "b_props", 24, ["NF=3", _FX, "NPROPS=%d" % n, "NP=%d" % max(n, 1)], functions=["pcsc_reader_get_property"], cover=n == 6, unwindset={"pcsc_reader_get_property.0": n // 2 + 2, "pc_memcpy.0": 8}, bound="%d octets of properties, values up to 6 octets" % n)
    for n in (0, 1, 2, 3, 4, 6, 8)
] + [
    R("card", "b_card", 20, functions=["pcsc_reader_connect", "pcsc_reader_get_atr", "pcsc_reader_trx", "pcsc_reader_disconnect"], bound="ATR up to 8 octets, commands up to 5, responses up to 12"),
    R("wait", "b_wait", 20, ["NR=2"], functions=["pcsc_wait_for_card"], bound="2 readers, 2 successive waits"),
    R("state", "b_state", 20, ["V_STATE"], functions=["pcsc_reader_get_state"]),
])
