P("C01", "BER tags and definite lengths decode exactly as ISO 8825-1 says",
  "Decoding a tag or a field with definite length from any buffer yields exactly the tag, length and value position that ISO 8825-1 assigns to those octets, and returns the number of octets that the field occupies. It returns 0 when the buffer is empty, an error when the field is malformed or does not fit in the buffer, never reads outside the buffer, and never reports a value that lies outside of it.",
  "inputs", "all buffers of all lengths",
  "The tests decode a handful of hand-written fields; truncation points, length-of-length octets and buffer sizes form an unbounded space.",
  ["src/iso8825_ber.c"], [("tag decode", "iso8825_ber_tag_decode"), ("field decode", "iso8825_ber_decode")],
  T_DFCC, "proof", "Both functions are proved against dfcc contracts for buffers of any length; the executable harnesses add the exact value function for tags (complete) and for fields (bounded stand-ins that give replayable inputs).")
P("C02", "BER indefinite-length fields end exactly at their own end-of-contents",
  "A field of indefinite length decodes to the contents up to, and not including, the end-of-contents octets that match it, however deeply fields are nested, and the returned size includes those octets. A field without matching end-of-contents is an error, and decoding always terminates without reading outside the buffer.",
  "inputs", "all buffers, all nestings of definite and indefinite fields",
  "The tests have two indefinite-length samples; nesting depth, position of end-of-contents and truncation are unbounded.",
  ["src/iso8825_ber.c"], [("indefinite form", "iso8825_ber_decode")],
  T_DFCC + ", recursive contract", "other", "Safety, bounds and the size relation are proved for all lengths with a recursive dfcc contract and loop contracts; the exact end position is proved inductively (recursive contract against a ghost table) for buffers up to 16 octets at any nesting: bounded, labelled so.")
P("C03", "BER iteration visits every field once, in order, and then stops",
  "Iterating over a buffer yields the consecutive fields of that buffer, each exactly once and in order, and then reports the end; a malformed field is reported as an error instead. Every successful step moves forward by exactly the size of the field, so that iteration terminates and never leaves the buffer.",
  "inputs histories", "all buffers and any number of iteration steps",
  "The tests iterate over a few sample buffers; termination and progress must hold for all contents.",
  ["src/iso8825_ber.c"], [("iterator", "iso8825_ber_itr_init, iso8825_ber_itr_next")],
  T_MOD, "proof", "The step is proved from an arbitrary iterator state against the contract of the field decoder, which C01 and C02 decide; by induction this gives the whole iteration.")
P("C04", "TLV parsing yields every primitive field of the data in order, or an error",
  "Parsing TLV data appends exactly the primitive fields of the data, at any nesting depth of constructed fields and in document order, each with its own tag, length and a copy of its value, after what the list already held. Malformed data and exhausted memory are reported as errors, and nothing else is.",
  "inputs fault_sequences", "all TLV data, all nestings, all allocation failures",
  "The tests parse fixed card data without malformed nesting or allocation failure.",
  ["src/emv_tlv.c"], [("parse", "emv_tlv_parse")],
  T_MOD, "other", "One level of the parser is proved against the contracts of the BER iterator and of its own recursive call (induction over nesting, any depth); the number of fields per level is bounded by 4, labelled bounded.")
P("C05", "TLV lists behave as sequences of owned fields",
  "A TLV list behaves as a sequence: push appends a field that holds its own copy of the value, pop detaches the front field, find returns the first field with a tag, append moves all fields of another list to the end, and clear releases everything. A failed push leaves the list as it was, and duplicates are detected exactly when two fields share a tag.",
  "inputs histories fault_sequences", "all list contents, operations and allocation failures",
  "The tests build a few lists and never fail an allocation.",
  ["src/emv_tlv.c"], [("list operations", "emv_tlv_list_push, emv_tlv_list_pop, emv_tlv_list_find, emv_tlv_list_append, emv_tlv_list_clear, emv_tlv_list_has_duplicate")],
  T_DFCC + "; bounded list harnesses", "other", "push is proved with a dfcc contract for any list; the other operations are decided against an abstract sequence for lists of up to 3+3 fields with arbitrary tags, flags and values: bounded, labelled so.")
P("C13", "EMV numeric and binary formats convert exactly or report an error",
  "Encoding an unsigned integer as EMV format n or b right-justifies and zero-pads its value in the requested number of octets (keeping the least significant digits when it does not fit), and decoding returns that value, so that a value that fits survives a round trip. Decoding reports an error for octets that are not decimal digits and for values that the result type cannot hold, and nothing outside the given buffer is touched.",
  "inputs", "all values and all buffer lengths",
  "The tests convert a few amounts; digit validity, padding and overflow range over all values and lengths.",
  ["src/emv_tlv.c"], [("format n", "emv_uint_to_format_n, emv_format_n_to_uint"), ("format b", "emv_uint_to_format_b, emv_format_b_to_uint")],
  T_HARN, "other", "All values and buffers within the stated bounds per job (buffers up to 6 or 8 octets); bounded, labelled so.")
P("C14", "Text filters keep exactly the permitted characters and terminate the string",
  "Converting EMV text formats to strings keeps exactly the characters that the format permits, in order, and terminates the string within the given buffer; nothing else is written. The hexadecimal conversion yields two upper-case digits for each octet that fits.",
  "inputs", "all octet strings and buffer sizes",
  "The tests convert a few labels; every octet value and every relation between the sizes matters.",
  ["src/emv_tlv.c"], [("filters", "emv_format_ans_to_non_control_str, emv_format_ans_to_alnum_space_str")],
  T_HARN, "other", "Complete over all octet values for inputs of up to 8 octets: bounded, labelled so.")
P("C25", "Object identifiers decode to their arcs without overrunning the result",
  "Decoding a well-formed object identifier whose arcs fit in 32 bits yields exactly its arcs as ISO 8825-1 defines them, in order, when the result has room for that many arcs (ten), and is an error otherwise; this includes first subidentifiers of several octets, and excludes identifiers of 40 octets or more, which are rejected. For any octets whatsoever, decoding terminates, reads only the given octets and writes only the result, and an empty identifier is an error.",
  "inputs", "all octet strings",
  "The tests decode two identifiers; arc counts and arc sizes are unbounded.",
  ["src/iso8825_ber.c"], [("OID decode", "iso8825_ber_oid_decode")],
  T_DFCC, "other", "Memory safety, termination and result bounds are proved for any length with dfcc and loop contracts; the exact arcs for identifiers up to 11 octets: bounded, labelled so.")

P("C06", "DOL processing builds exactly the data that the list requests",
  "Processing a Data Object List yields its entries in order and the sum of their lengths as data length, or an error when the list is malformed. Building data from a DOL gives exactly the requested length: for each entry the value of the first source that has the field, truncated on the left for format n and on the right otherwise, or padded with zeroes in front for format n and behind otherwise (and with F for format cn), and zeroes for fields that are absent; when the output buffer is too small it is an error and nothing beyond the buffer is written.",
  "inputs", "all lists, all sources, all buffer sizes",
  "The tests build data for a few sample lists; truncation, padding, malformed lists and buffer limits span all inputs.",
  ["src/emv_dol.c"], [("decode and iterate", "emv_dol_decode, emv_dol_itr_next"), ("length", "emv_dol_compute_data_length"), ("build", "emv_dol_build_data")],
  T_DFCC + "; modular harnesses with contract stubs", "other", "Entry decoding and the data length are proved with dfcc contracts (any length, loop contract with ghost sum); building is decided against the contracts of the iterator and of list search for up to 2 entries and 2 sources: bounded, labelled so.")
P("C07", "T=0 exchange: exactly the octets that the protocol calls for, and no overrun",
  "For any card behaviour, an APDU exchange sends exactly the octets that T=0 calls for at each step (command or header, command data after the procedure byte, resent header after 6Cxx, GET RESPONSE after 61xx), returns the concatenated response data and the final status word of the card, reports reader failures and malformed responses as errors, and writes only within the caller's response buffer.",
  "inputs histories fault_sequences", "all commands, all sequences of card responses, all buffer sizes",
  "The tests emulate a handful of fixed exchanges; the card chooses every response.",
  ["src/emv_ttl.c"], [("exchange", "emv_ttl_trx")],
  T_HARN, "other", "The real function runs against an executable protocol specification in place of the reader, in both reader modes, for commands of 3 to 8 octets and up to 4 responses of up to 6 octets with arbitrary contents: bounded, labelled so. Status words 0000 and INS 6x/9x are outside of the assumption, as is the reader-specific 6Cxx answer to case 4 in APDU mode.",
  state=[("exchange", "octets still to be sent, response so far")])
P("C08", "Commands are encoded as specified and their results returned unchanged",
  "SELECT, SELECT next, READ RECORD and GET PROCESSING OPTIONS transmit exactly the APDU that EMV and ISO 7816-4 specify for the given arguments, reject arguments and buffers that cannot be used before anything is transmitted, and return exactly the response data and status word of the exchange. The case of an APDU is classified as ISO 7816-3 defines it for short and extended lengths.",
  "inputs", "all arguments, all buffer sizes, all responses",
  "The tests use one or two argument values per command.",
  ["src/emv_ttl.c", "src/iso7816_apdu.c", "src/iso7816_apdu.h"], [("commands", "emv_ttl_select_by_df_name, emv_ttl_read_record, emv_ttl_get_processing_options"), ("APDU case", "iso7816_apdu_case")],
  T_MOD, "other", "Each command function is decided against a contract stub of the exchange (C07) for all arguments; response and buffer sizes are sampled at their boundaries (labelled bounded). The APDU case is complete for headers and length octets.")
P("C09", "AFL entries are accepted exactly when EMV permits them, in order",
  "Iterating over an Application File Locator yields its entries in order, each with exactly the SFI, first record, last record and number of authenticated records of its four octets, and accepts an entry exactly when EMV Book 3 permits it (SFI 1 to 30, first record not zero, last not before first, not more authenticated records than records). A list whose length is not a multiple of four is an error.",
  "inputs", "all octet strings",
  "The tests iterate over sample lists; the entry octets have 2^32 combinations.",
  ["src/emv_fields.c"], [("iterator", "emv_afl_itr_init, emv_afl_itr_next")],
  T_DFCC, "proof", "The step function is proved for every iterator state and every entry with a dfcc contract; a bounded harness gives replayable inputs.")
P("C10", "CVM list iteration yields the amounts and rules exactly as encoded",
  "Processing a Cardholder Verification Method list yields the amounts X and Y as big-endian 32 bit numbers followed by exactly the rules of the list, in order, and then the end; a list that is too short or has an odd number of octets is an error, and nothing outside of the list is read.",
  "inputs", "all octet strings",
  "The tests process sample lists only.",
  ["src/emv_fields.c"], [("iterator", "emv_cvmlist_itr_init, emv_cvmlist_itr_next")],
  T_DFCC, "proof", "Both functions are proved for lists of any length with dfcc contracts; a bounded harness gives replayable inputs.")
P("C11", "ATR parsing follows ISO 7816-3 for every arrangement of interface bytes",
  "Parsing an Answer To Reset finds every interface byte TAi, TBi, TCi and TDi exactly where T0 and the preceding TDi announce it, derives the global and protocol parameters (Fi, Di, N, guard times, waiting times, IFSI, error detection code) from the first applicable byte as ISO 7816-3 defines them and from the defaults otherwise, locates the historical bytes and the status indicator, and verifies TCK exactly when it has to be present. Truncated, oversized and inconsistent ATRs are errors, and nothing outside of the given octets is used.",
  "inputs", "all octet strings of up to 33 octets and beyond",
  "The tests parse a dozen real ATRs; there are thousands of arrangements of interface bytes, each with free values.",
  ["src/iso7816.c", "src/iso7816_compact_tlv.c"], [("ATR", "iso7816_atr_parse, iso7816_atr_parse_historical_bytes")],
  T_HARN, "other", "The real parser is decided against an executable ISO 7816-3 model for 544 concrete arrangements of T0/TDi (all pairs of neighbouring levels) with all values of all other octets, all historical byte counts, and lengths 10 below to 10 above; bounded in the arrangements, labelled so.")
P("C12", "EMV accepts exactly the ATRs that the EMV contact specification permits",
  "A well-formed ATR is accepted for EMV exactly when each interface byte satisfies the EMV contact specification: TA1 within the permitted range (11 to 13 in specific mode), TC1 00 or FF, TA2 in specific mode of the first protocol without implicit parameters, TC2 only as 0A for T=0, TD2 as required for the first protocol, and for T=1 TA3 at least 10, TB3 present with BWI up to 4 and CWI up to 5, and TC3 zero. Everything else, and a malformed ATR, is a card error.",
  "inputs", "all ATRs",
  "The tests have a dozen ATRs; each interface byte has 256 values and may be absent.",
  ["src/emv.c"], [("EMV ATR", "emv_atr_parse")],
  T_MOD, "proof", "Complete over every result that the contract of the ATR parser (C11) permits: presence and value of every interface byte is unconstrained. A search harness on the unmodified call graph provides failing inputs.")
P("C15", "Terminal AID matching follows the application selection indicator",
  "A card application is supported exactly when some terminal AID equals its AID, or is a prefix of it and permits partial matching; an application without AID, or without any terminal AID, is not supported.",
  "inputs", "all AIDs, all lists of terminal AIDs",
  "The tests use a few scheme AIDs; length and prefix relations between arbitrary AIDs are unbounded.",
  ["src/emv_app.c"], [("support", "emv_app_is_supported")],
  T_HARN, "other", "All AIDs of 0 to 16 octets (the EMV maximum) and arbitrary indicators; 2 terminal AIDs at full length, 4 terminal AIDs of up to 6 octets: bounded in the list, labelled so.")
P("C16", "Application lists keep every candidate, sorted by priority and stable",
  "Sorting an application list reorders it by priority, 1 first and no priority last, keeps candidates of equal priority in their original order, and neither loses nor adds a candidate. Push, pop, removal by index and clear behave as for a sequence of owned candidates, and cardholder selection is required exactly for more than one candidate or when one requests confirmation.",
  "inputs histories", "all lists and operations",
  "The tests sort one list.",
  ["src/emv_app.c"], [("lists", "emv_app_list_sort_priority, emv_app_list_push, emv_app_list_pop, emv_app_list_remove_index, emv_app_list_clear"), ("release", "emv_app_free")],
  T_HARN, "other", "Lists of up to 4 candidates with arbitrary priorities and flags, against a reference sequence: bounded, labelled so.")
P("C17", "Applications are created from card data with correct AID, name and priority",
  "Creating an application from an FCI template or a PSE directory entry succeeds exactly when the data is well-formed and holds an AID (DF name or ADF name) and a display name can be derived. The display name is the preferred name in its code table when that is supported, otherwise the application label, otherwise the AID in hexadecimal; priority and confirmation come from the priority indicator; all fields are kept in order, and nothing is leaked or kept on failure, including exhausted memory.",
  "inputs fault_sequences", "all card data, all allocation failures",
  "The tests create two or three applications from complete data; absent, empty and repeated fields and memory failure are not tested.",
  ["src/emv_app.c"], [("creation", "emv_app_create_from_fci, emv_app_create_from_pse")],
  T_MOD, "other", "Decided against contract stubs of BER decoding, TLV parsing and the text conversions for up to 4 fields of up to 2 octets in any combination and any allocation failure: bounded, labelled so. A search harness on the unmodified call graph provides failing inputs.")
P("C18", "Initiating an application and reading its records follows EMV Book 3",
  "Initiating application processing sets the terminal data of the transaction, sends GET PROCESSING OPTIONS once with exactly the PDOL data in template 83 (or none), accepts both response formats, and moves the application data, AIP and AFL to the card data only on success. Reading application data reads each record of each AFL entry exactly once and in order, stops at the first failure, rejects malformed and redundant data and missing mandatory fields, and leaves the card data unchanged on any failure; reset and clear release everything that they should.",
  "inputs histories fault_sequences", "all card responses, record contents and allocation failures",
  "The tests play a few successful and a few failing dialogues; the card determines every response.",
  ["src/emv.c", "src/emv_tal.c"], [("records", "emv_tal_read_afl_records"), ("processing options", "emv_tal_get_processing_options, emv_initiate_application_processing"), ("application data", "emv_read_application_data"), ("context", "emv_ctx_init, emv_ctx_reset, emv_ctx_clear")],
  T_MOD, "other", "Each function is decided against contract stubs of its callees with arbitrary results; list handling is real. AFLs with up to 3 records in up to 3 entries, responses and lists of a few fields: bounded, labelled so.",
  state=[("context", "terminal, card and transaction data lists")])
P("C19", "The candidate list holds exactly the mutually supported applications",
  "Building the candidate list selects the PSE, reads its directory from record 1 until the card reports the end (at most 255 records), takes each supported application template once, and ignores invalid ones; when that yields no application it selects each terminal AID in turn and further applications for partial matches, skipping blocked and invalid ones. The candidates are sorted by priority; blocked cards, transport failures and an empty result lead to the specified outcomes, and no application is leaked or listed twice.",
  "inputs histories", "all card responses",
  "The tests play a few dialogues; the card determines every response.",
  ["src/emv.c", "src/emv_tal.c"], [("PSE", "emv_tal_read_pse, emv_tal_parse_aef_record"), ("list of AIDs", "emv_tal_find_supported_apps"), ("candidates", "emv_build_candidate_list")],
  T_MOD, "other", "Each function is decided against contract stubs of its callees with arbitrary results; up to 3 directory records of up to 2 elements, a directory without end (complete), 2 terminal AIDs and 4 applications: bounded, labelled so.")
P("C20", "AIDs are attributed to the scheme and product of their registered prefix",
  "Looking up an AID reports exactly the payment scheme and product that the longest registered prefix assigns, for every octet string, and an error for an AID that no registered application provider owns; nothing outside of the AID is read.",
  "inputs", "all octet strings",
  "The tests look up a few AIDs.",
  ["src/emv_fields.c"], [("AID information", "emv_aid_get_info")],
  T_HARN, "proof", "All AIDs of 0 to 17 octets (EMV permits 5 to 16): every loop is fully unwound, so that the input domain is complete.")
P("C21", "Issuer application data format is recognised exactly as specified",
  "The format of issuer application data is recognised as CCD, Visa or Mastercard M/Chip exactly when length and identifying octets are those that the scheme specifies, and is unknown or an error otherwise, for every octet string, without reading outside of it.",
  "inputs", "all octet strings",
  "The tests classify a handful of samples.",
  ["src/emv_fields.c"], [("IAD format", "emv_iad_get_format")],
  T_DFCC, "proof", "The dfcc contract decides every length and content; a bounded harness gives replayable inputs.")
P("C22", "COMPACT-TLV iteration yields exactly the data objects of the historical bytes",
  "Decoding COMPACT-TLV data yields the data objects in order, each with exactly the tag, length and value of its octets, and then the end; data that is truncated is an error, and nothing outside of the data is read.",
  "inputs", "all octet strings",
  "The tests decode the historical bytes of a few ATRs.",
  ["src/iso7816_compact_tlv.c"], [("COMPACT-TLV", "iso7816_compact_tlv_decode, iso7816_compact_tlv_itr_next")],
  T_DFCC, "proof", "The step function is proved for every iterator state and length with a dfcc contract; a bounded harness over up to 17 octets gives replayable inputs.")
P("C26", "Final selection selects exactly the chosen candidate or removes it",
  "Final selection sends SELECT once with the AID of the chosen candidate, accepts the application only when the card reports success, its FCI is valid and its DF name equals that AID, and otherwise removes the candidate and asks to try again while candidates remain. The chosen candidate and a previously selected application are released, the other candidates stay in order, and blocked cards and transport failures end the session.",
  "inputs histories", "all candidate lists, indices and card responses",
  "The tests play a few dialogues with one or two candidates.",
  ["src/emv.c", "src/emv_tal.c"], [("selection", "emv_tal_select_app, emv_select_application")],
  T_MOD, "other", "Decided against contract stubs of SELECT and application creation with arbitrary results; up to 3 candidates, any index, AIDs of 0 to 18 octets: bounded in the list, labelled so.")
P("C23", "ISO 8859 text becomes UTF-8 text without leaving the given buffers",
  "The built-in and the iconv conversion of ISO 8859 text to UTF-8 never read beyond the given text and never write beyond the given buffer, and on success leave a NUL-terminated string, empty for empty text. The built-in conversion yields exactly the UTF-8 encoding of the characters up to the end or the first NUL, and reports what it cannot represent as an error; the iconv conversion asks for exactly the named ISO 8859 part.",
  "inputs", "all octet strings, code tables and buffer sizes",
  "The tests convert a few names into large buffers.",
  ["src/iso8859_simple.c", "src/iso8859_iconv.c"], [("built-in", "iso8859_to_utf8 (iso8859_simple.c)"), ("iconv", "iso8859_to_utf8 (iso8859_iconv.c)")],
  T_DFCC, "other", "The built-in conversion is proved for any length with a dfcc contract (safety, bounds, termination); its exact output is decided for up to 4 characters, and the iconv conversion against a contract of iconv() for small buffers: bounded, labelled so. The Boost.Locale implementation (C++) is not covered.")
P("C24", "Debug events reach the registered function exactly when selected",
  "A debug event is delivered to the registered function exactly once when a function is registered, the source is selected and the level does not exceed the configured level, with source, level, type, data and formatted text unchanged and the current time in microseconds; otherwise nothing is delivered. The dump macros pass on data and length unchanged.",
  "inputs histories", "all sources, levels, configurations, data and clock values",
  "The tests register one function for all sources and never check what it receives.",
  ["src/emv_debug.c"], [("filter", "emv_debug_init, emv_debug_internal")],
  T_MOD, "other", "Complete over source mask, level, configuration, data and formatting results; vsnprintf and the clock are contract stubs. The value of the time stamp is decided for windows of clock values: bounded, labelled so.",
  state=[("configuration", "source mask, level and function")])
P("C27", "Decoding card data to text reads only that data and stays in the string",
  "Converting EMV data objects and C-APDUs to text, for any octets and lengths that a card or terminal may supply, reads only the given octets and writes only within the given string. On success the string is NUL-terminated, and conversions never leave a terminated string unterminated when they report an error. Describing a field passes its complete value to the conversion, and shows a DF name as text only for the PSE and PPSE.",
  "inputs", "all values of all fields and all sizes of the string",
  "The tests convert well-formed samples into strings of 2048 characters; short, long and malformed values and small strings are not tested.",
  ["src/emv_strings.c", "src/iso7816_strings.c"], [("description", "emv_tlv_get_info"), ("lists", "emv_str_list_add and the *_get_string_list functions"), ("values", "the *_get_string functions"), ("C-APDU", "iso7816_capdu_get_string")],
  T_MOD, "other", "Every public conversion is decided separately, with the conversions that it calls replaced by contract stubs that are decided in their own job; values and strings up to the stated size of each job: bounded, labelled so. printf-like functions are contract stubs; country, currency, language and merchant category lookups (C++) are assumed to honour their interface.")
P("C28", "Card values and their text convert into each other exactly or not at all",
  "Converting EMV dates, times, amounts, numbers, digit strings, track 2 data and text formats to text yields exactly the text that the octets denote: YYYY-MM-DD of the 21st century, hh:mm:ss, decimal digits without leading zeroes, digits and track 2 characters up to the padding, and the permitted characters unchanged. Values with a wrong length or invalid digits or characters, and strings that are too small, are reported as errors. Packing decimal text as format cn or n yields exactly its digits, padded with F behind or zeroes in front, so that the text survives the round trip.",
  "inputs", "all values, texts and sizes",
  "The tests convert a few samples; digits, padding, lengths and sizes vary independently.",
  ["src/emv_strings.c"], [("to text", "emv_date_get_string, emv_time_get_string, emv_amount_get_string, emv_format_n_get_string, emv_format_cn_get_string, emv_track2_equivalent_data_get_string, emv_format_a_get_string, emv_format_an_get_string, emv_format_ans_only_space_get_string, emv_format_ans_ccs_get_string"), ("from text", "emv_str_to_format_cn, emv_str_to_format_n")],
  T_HARN, "other", "Dates and times are complete but for the size of the string; the others for values of up to 5 to 7 octets, and numbers up to 2 octets and around powers of ten and the limits of 32 bit: bounded, labelled so.")
P("C29", "Reader access reports what the reader supplies and balances its sessions",
  "Creating a reader context either succeeds and lists exactly the available readers by name, or fails and leaves nothing allocated, connected or established; releasing it releases everything. A feature is reported exactly when the reader's feature list contains it, and a property is returned with exactly the value that the reader supplied for it, whatever properties precede it, without reading outside the supplied data or writing outside the value buffer. Connecting powers the card exclusively, reports contactless cards as such and no other, and on failure leaves the card disconnected; the ATR is available only for a connected contact card and is the one the card gave. Exchanges pass commands and responses unchanged using the protocol of the connection and only while connected, and waiting watches exactly the chosen readers and reports the first one with a card.",
  "inputs histories fault_sequences", "all feature and property lists, ATRs and responses, all failures of PC/SC functions and allocations",
  "No test exercises the PC/SC layer at all, because it needs a reader; failing resource managers and unusual readers cannot be sampled.",
  ["src/pcsc.c"], [("context", "pcsc_init, pcsc_release, pcsc_reader_populate_features"), ("features and properties", "pcsc_reader_has_feature, pcsc_reader_get_property"), ("card", "pcsc_reader_connect, pcsc_reader_get_atr, pcsc_reader_trx, pcsc_reader_disconnect, pcsc_wait_for_card, pcsc_reader_get_state")],
  T_HARN + "; the PC/SC library is replaced by contract stubs", "other", "The real functions against PC/SC functions replaced by contract stubs that check their use and may fail: up to 2 readers, 3 features, 8 octets of properties, ATR up to 8 octets: bounded, labelled so.")
N("C30", "Code lookups return the entry of the code list or nothing",
  "Looking up a country, currency, language or merchant category code returns the name that the installed code list has for it, and nothing for codes that the list does not contain.",
  "inputs", "all codes and code lists",
  "The tests look up a few codes.",
  ["src/isocodes_lookup.cpp", "src/mcc_lookup.cpp"], [("lookups", "isocodes_lookup_*, mcc_lookup")],
  "The lookups are C++ over STL maps and a JSON parser (JSON is read from files at run time); CBMC's C++ front end cannot process them and no other deductive verifier for C++ is installed. C27 assumes their interface only.")
