"""The verification units: which function of /repo is put under which contract."""

STR = {"strcmp.0": 140, "strncpy.0": 140, "strlen.0": 140, "str_eq.0": 140, "str_copy.0": 140, "strncmp.0": 140, "memchr.0": 140}
VSTR = {"hint.0": 26, "put.0": 26, "strlen.0": 40, "vfmt.0": 40, "vfmt.1": 40}
LIB = ["array", "keyvalue", "serialize", "voucher", "request", "os"]

FILES = {"crypto": "crypto_ossl", "voucher": "voucher", "serialize": "serialize", "config": "config", "pledge_utils": "pledge_utils"}


class Unit:
    def __init__(self, name, prop, spec, functions, **k):
        self.name, self.prop, self.functions = name, prop, functions
        self.spec = spec if isinstance(spec, list) else [spec]
        d = dict(src=LIB, extra_src=[], extra_src_native=None, cflags={}, remove=[], defs=[], small_defs=[], entry="harness",
                 enforce=[], replace=[], loop_contracts=False, replace_calls=[], statics=(), gi_args=[], flatten=(), unwind=4, unwindset=STR, small_unwind=10,
                 small_unwindset={}, object_bits=10, cbmc_args=[], timeout=500, bounded=None, thorough_only=False,
                 cxx=[], covered_by=None, native_wrap=[], native_libs=[], fallback=None, soft=(), split=0, split_re=r"harness\.assertion", split_rest=1, split_limit=40)
        d.update(k)
        for x in ("unwindset", "small_unwindset"):
            d[x] = dict(d[x])
        self.__dict__.update(d)

        if self.statics:
            # static functions called by the harness carry goto-cc's exported names
            for d in (self.unwindset, self.small_unwindset):
                for k in list(d):
                    f = k.split(".")[0]
                    for m, g in self.statics:
                        if g == f:
                            d[self.mangled(m, f) + "." + k.split(".")[1]] = d.pop(k)

    def mangled(self, mod, f):
        return f"__CPROVER_file_local_{FILES[mod]}_c_{f}"

    def loop_soft(self, r):
        import re
        return any(re.search(s, r["description"]) for s in self.soft)


REQ_REMOVE = ["verify_cms_voucher", "sign_cms_voucher", "crypto_verify_cert"]

SETTERS = ["set_attr_bool_voucher", "set_attr_time_voucher", "set_attr_enum_voucher", "set_attr_str_voucher", "set_attr_array_voucher", "set_attr_voucher"]
KINDS = [1, 1, 2, 3, 4, 4, 0, 4, 1, 4, 4]  # kind of each attribute, in the order of enum VoucherAttributes

LISTS = [("crypto:get_certificate_stack", "spec_get_certificate_stack"), ("crypto:get_certificate_store", "spec_get_certificate_store"), ("free_x509_store", "spec_free_x509_store")]
CRU = {"get_certificate_stack.0": 3, "get_certificate_store.0": 3, "OPENSSL_sk_pop_free.0": 3, "X509_STORE_free.0": 3, "fill_bytes.0": 4}
CR = dict(split=4, split_rest=4, small_defs=["VSMALL_LEN=3"], unwindset={}, unwind=5, small_unwind=4, small_unwindset=CRU)
C11U = {"lit.0": 32, "serialize_escapestr.0": 13, "which.0": 4,  "voucher_to_keyvalue.0": 12}
C12U = {"is.0": 33, "lit.0": 32, "harness.0": 34, "harness.1": 34, "harness0.0": 65, "harness0.1": 65, "harness3.0": 13, "harness3.1": 13, "harness3.2": 13, "harness3.3": 13, "spec_equal.0": 13, "spec_equal.1": 5, "strncmp.0": 34, "strlen.0": 34, "set_attr_strenum_voucher.0": 5}
CXX = dict(src=["array", "os"], unwindset=dict.fromkeys(["v_text.0", "v_chars.0", "v_textlen.0", "strlen.0", "load_file.0", "load_cert_files.0", "mk_config.0", "mk_config.1", "new_run.0", "new_run.1", "serialize_base64str2array.0", "vs_app.0"], 14), small_unwind=14, unwind=14, split=4)
for x in ("lit_len.0", "same_text.0", "spells.1"): CXX["unwindset"][x] = 90
CXX["unwindset"]["free_array_list.0"] = 3
CXX["small_unwindset"] = CXX["unwindset"]
CXX19 = dict(CXX, src=["array", "os", "pledge_utils"])
CXX19["split"] = 0
CXX19["unwindset"] = CXX19["small_unwindset"] = {**CXX["unwindset"], **{"lit_len.0": 40, "spells.1": 40}}
C20U = {"harness.9": 27, "run.0": 9, "run.1": 9, "run.2": 9, "run.3": 9, "run.4": 9, "run.5": 9, "run.6": 9, "run.7": 9, "ini_browse.0": 9, "harness0.0": 5, "ini_gets.1": 9, "spec_release.0": 9, "spec_release.1": 4, "strlen.0": 9, "strlen.1": 9, "same.0": 24, "at.0": 9, "harness.0": 9, "harness.1": 9, "harness.2": 9, "harness.3": 9, "harness.4": 9, "harness.5": 9, "harness.6": 9, "harness.7": 9, "harness.8": 9, "ini_gets.0": 9, "free_array_list.0": 4, "strcmp.0": 24, "strcasecmp.0": 24}
C20L = {"memcpy.0": 9, "ini_browse.0": 9, "ini_browse.1": 9, "of.0": 4, "ini_gets.0": 4, "same.0": 3, "harness.0": 4, "harness.1": 4, "harness.2": 4, "strlen.0": 24, "strcmp.0": 24, "strcasecmp.0": 24, "strcpy.0": 24, "file_to_x509buf.0": 4, "free_array_list.0": 5, "dl_list_len.0": 5}
C15U = {"get_x509_keyvalue.0": 11, "kind_of.0": 11, "eq.0": 14}

UNITS = [
    Unit("c01_verify_masa_pledge_voucher", "C01", "c01_verify_masa_pledge_voucher.c", ["verify_masa_pledge_voucher"], remove=REQ_REMOVE, split=4),
    Unit("c02_sign_voucher_request", "C02", "c02_sign_voucher_request.c", ["sign_voucher_request"], remove=REQ_REMOVE, split=4, split_rest=6, split_limit=60),
    Unit("c03_sign_masa_pledge_voucher", "C03", "c03_sign_masa_pledge_voucher.c", ["sign_masa_pledge_voucher"], remove=REQ_REMOVE, split=4, split_rest=6, split_limit=60),
    Unit("c04_sign_pledge_voucher_request", "C04", "c04_sign_pledge_voucher_request.c", ["sign_pledge_voucher_request"], remove=REQ_REMOVE, split=4),
    Unit("c13_arrays", "C13", "c13_arrays.c", ["copy_binary_array", "compare_binary_array", "init_binary_array", "init_array_list", "free_binary_array",
                                                "free_binary_array_content", "sys_memdup"], src=["array", "os"]),
    Unit("c13_push_array", "C13", "c13_push_array.c", ["push_array_list"], src=["array", "os"]),
    Unit("c13_strdup", "C13", ["c13_strdup.c", "../lib/vstr.c"], ["sys_strdup", "sys_strndup"], src=["os"], unwindset=VSTR),
    Unit("c13_push_keyvalue", "C13", ["c13_push_keyvalue.c", "../lib/vstr.c"], ["push_keyvalue_list"], src=["array", "keyvalue", "os"], unwindset=VSTR,
         remove=["sys_strdup", "sys_strndup"]),
    Unit("c13_list_life", "C13", "c13_list_life.c", ["init_keyvalue_list", "push_keyvalue_list", "free_keyvalue_list", "free_array_list", "push_array_list", "init_array_list"],
         src=["array", "keyvalue", "os"], unwind=5, small_unwind=5, unwindset={}, bounded="lists of at most 3 elements, strings of at most 2 characters"),
    *[Unit(f"c10_set_{a}_{'any' if h == 5 else 'typed'}", "C10", ["c10_set.c", "../lib/vstr.c"], [SETTERS[h], "free_voucher"], src=["array", "voucher", "os"], unwindset=VSTR, split=4, defs=["VSTR", f"HOW={h}", f"ATTR={a}"])
      for a in range(12) for h in ((KINDS[a], 5) if a < 11 else (5,))],
    *[Unit(f"c10_set_wrong_{h}", "C10", ["c10_set.c", "../lib/vstr.c"], [SETTERS[h], "free_voucher"], src=["array", "voucher", "os"], unwindset=VSTR, split=4, defs=["VSTR", f"HOW={h}", "ATTR=-1"]) for h in range(5)],
    Unit("c10_clear_get", "C10", ["c10_clear_get.c", "../lib/vstr.c"], ["clear_attr_voucher", "is_attr_voucher_nonempty", "get_attr_bool_voucher", "get_attr_time_voucher", "get_attr_enum_voucher",
                                                    "get_attr_str_voucher", "get_attr_array_voucher", "init_voucher", "free_voucher"], src=["array", "voucher", "os"],
         split=4, defs=["VSTR"], unwindset=dict(VSTR, **{"harness.0": 13, "harness.1": 13, "harness.2": 13})),
    *[Unit(f"c21_time_{w}", "C21", ["c21_time.c", "../lib/vstr.c"], f, src=["serialize", "os", "array", "keyvalue"], split=4, defs=["VSTR", f"WHICH={w}"], native_wrap=["strftime", "strptime"],
           unwindset=dict(VSTR, **{"fmt_is_datetime.0": 7, "fmt_is_datetime.1": 26, "fmt_is_datetime.2": 14, "dt_parse.0": 22, "strftime.0": 66, "to_text.0": 23}), small_defs=["VSMALL_LEN=24"], small_unwind=26, small_unwindset={"fmt_is_datetime.0": 7, "fmt_is_datetime.1": 26, "fmt_is_datetime.2": 14, "dt_parse.0": 22, "strftime.0": 66, "to_text.0": 23, "strlen.0": 40})
      for w, f in enumerate([["serialize_time2str"], ["serialize_str2time"], ["serialize_localtime", "get_localtime"]])],
    Unit("c21_bool", "C21", ["c21_bool.c", "../lib/vstr.c"], ["serialize_str2bool", "serialize_bool2str"], src=["serialize", "os", "array", "keyvalue"], split=4, unwindset={},
         unwind=9),
    *[Unit(f"c21_strings_{w}", "C21", ["c21_strings.c", "../lib/vstr.c"], [f], src=["serialize", "os", "array", "keyvalue"], split=4, defs=["VSTR", f"WHICH={w}"], unwindset=VSTR)
      for w, f in enumerate(["serialize_escapestr", "concatenate_keyvalue"])],
    Unit("c08_encode", "C08", "c08_encode.c", ["serialize_array2base64str", "base64_gen_encode"], src=["serialize", "os", "array", "keyvalue"], loop_contracts=True,
         unwindset={}, small_unwind=12, split=3, split_rest=4, small_defs=["VSMALL_LEN=14"], small_unwindset={"fill_bytes.0": 20}),
    *[Unit(f"c09_decode_{w}", "C09", "c09_decode.c", ["serialize_base64str2array", "base64_gen_decode"], src=["serialize", "os", "array", "keyvalue"], loop_contracts=True, defs=[f"WHICH={w}"],
           unwindset={}, unwind=70, small_unwind=70, split=3, split_rest=4, small_defs=[f"VSMALL_LEN={(6, 8)[w]}"], small_unwindset={"fill_bytes.0": 20, "base64_gen_decode.1": 12, "base64_gen_decode.2": 14, "harness.0": 14})
      for w in (0, 1)],
    Unit("c05_verify_cms", "C05", "c05_verify_cms.c", ["crypto_verify_cms", "derbuf_to_cms", "bio_to_ptr"], src=["crypto", "array", "os"], replace_calls=LISTS + [("crypto:exatract_cms_certs", "spec_extract")], **CR),
    Unit("c05_verify_cms_voucher", "C05", "c05_verify_cms_voucher.c", ["verify_cms_voucher"], src=["voucher", "array", "os"], remove=["crypto_verify_cms", "deserialize_voucher"], split=4),
    Unit("cms_signers", "C05", "cms_signers.c", ["exatract_cms_certs", "cert_to_derbuf"], src=["crypto", "array", "os"], loop_contracts=True, statics=[("crypto", "exatract_cms_certs")],
         replace_calls=[(f, f"spec_{f}") for f in ("init_array_list", "push_array_list", "free_array_list")], **dict(CR, defs=["VLEND"])),
    *[Unit(f"c06_sign_{n}", "C06", "c06_sign_cms.c", [f"crypto_sign_{n}", "sign_withkey_cms", "cms_to_derbuf", "bio_to_ptr"], src=["crypto", "array", "os"], replace_calls=LISTS[:1], **dict(CR, defs=[f"KIND={i}"]))
      for i, n in enumerate(["cms", "eccms", "rsacms"])],
    *[Unit(f"c06_sign_{n}_voucher", "C06", ["c06_sign_voucher.c", "../lib/vstr.c"], [f"sign_{n}_voucher"], src=["voucher", "array", "os"], remove=["serialize_voucher"], unwindset=VSTR, split=4, defs=["VSTR", f"KIND={i}"])
      for i, n in enumerate(["cms", "eccms", "rsacms"])],
    Unit("c07_verify_cert", "C07", "c07_verify_cert.c", ["crypto_verify_cert"], src=["crypto", "array", "os"], replace_calls=LISTS, **CR),
    *[Unit(f"cert_stack_{p}", p, "cert_stack.c", ["get_certificate_stack"], src=["crypto", "array", "os"], loop_contracts=True, statics=[("crypto", "get_certificate_stack")], **CR) for p in ("C05", "C06", "C07")],
    *[Unit(f"cert_store_{p}", p, "cert_store.c", ["get_certificate_store", "free_x509_store", "free_x509_store_cert"], src=["crypto", "array", "os"], loop_contracts=True,
           statics=[("crypto", "get_certificate_store")], replace_calls=[(f"crypto:{f}", f"spec_{f}") for f in ("init_ptr_list", "push_ptr_list", "free_ptr_list")], **CR) for p in ("C05", "C07")],
    *[Unit(f"ptr_push_{p}", p, "ptr_push.c", ["init_ptr_list", "push_ptr_list"], src=["crypto", "array", "os"],
           statics=[("crypto", f) for f in ("init_ptr_list", "push_ptr_list")], **CR) for p in ("C05", "C07")],
    *[Unit(f"ptr_list_{p}", p, "ptr_list.c", ["init_ptr_list", "push_ptr_list", "free_ptr_list", "free_ptr_list_el"], src=["crypto", "array", "os"],
           statics=[("crypto", f) for f in ("init_ptr_list", "push_ptr_list", "free_ptr_list")], bounded="lists of at most 3 pointers", **CR) for p in ("C05", "C07")],
    Unit("c14_name", "C14", "c14_name.c", ["add_x509name_keyvalues"], src=["crypto", "array", "os"], loop_contracts=True, statics=[("crypto", "add_x509name_keyvalues")], **dict(CR, defs=["VNAME"])),
    *[Unit(f"c14_generate_{n}", "C14", "c14_generate.c", [f"crypto_generate_{n}", "set_certificate_meta", "set_certificate_serialnumber", "sign_sha256_certificate", "cert_to_derbuf"], src=["crypto", "array", "os"],
           replace_calls=[("crypto:add_x509name_keyvalues", "spec_name")], **dict(CR, defs=[f"KIND={i}"])) for i, n in ((1, "eccert"), (2, "rsacert"))],
    Unit("c14_sign_cert", "C14", "c14_sign_cert.c", ["crypto_sign_cert", "sign_sha256_certificate", "cert_to_derbuf"], src=["crypto", "array", "os"], **CR),
    *[Unit(f"c15_{n}", "C15", "c15_meta.c", fs, src=["crypto", "array", "os", "keyvalue"], remove=["push_keyvalue_list"], replace_calls=[("get_x509_keyvalue", "spec_keyvalue")] if w else [],
         **dict(CR, defs=[f"WHICH={w}", "VLEND=2"], unwindset=C15U, small_unwindset=C15U)) for w, n, fs in ((0, "keyvalue", ["get_x509_keyvalue", "get_x509_entry"]), (1, "meta", ["crypto_getcert_meta"]))],
    Unit("c15_issuer", "C15", "c15_issuer.c", ["crypto_getcert_issuer", "bio_to_ptr"], src=["crypto", "array", "os"], **CR),
    Unit("c15_serial", "C15", "c15_serial.c", ["crypto_getcert_serial"], src=["crypto", "array", "os"], bounded="names of at most 3 entries, names of at most 13 characters",
         **dict(CR, unwindset={"strcmp.0": 16, "is_serial.0": 16, "harness.0": 16, "harness.1": 16}, small_unwindset={"strcmp.0": 16, "is_serial.0": 16, "harness.0": 16, "harness.1": 16})),
    *[Unit(f"c22_{n}", "C22", "c22.c", [f] + o, src=["crypto", "array", "os"], native_wrap=["fopen", "fclose"], **dict(CR, defs=[f"WHICH={i}"]))
      for i, (n, f, o) in enumerate([("load_cert", "file_to_x509buf", ["cert_to_derbuf"]), ("load_key", "file_to_keybuf", ["evpkey_to_derbuf"]), ("save_cert", "certbuf_to_file", ["crypto_cert2context"]),
                                     ("save_key", "keybuf_to_file", ["crypto_key2context"]), ("rsakey", "crypto_generate_rsakey", ["evpkey_to_derbuf"]), ("eckey", "crypto_generate_eckey", ["evpkey_to_derbuf"]),
                                     ("cert2buf", "crypto_cert2buf", ["cert_to_derbuf"]), ("copycert", "crypto_copycert", []), ("getrand", "crypto_getrand", [])])],
    Unit("c11_voucher", "C11", ["c11_voucher.c", "../lib/vstr.c"], ["serialize_voucher", "serialize_child_voucher", "voucher_to_keyvalue", "is_attr_voucher_nonempty"], src=["array", "voucher", "os"],
         replace_calls=[("voucher:serialize_attr_voucher", "spec_attr")], split=4, defs=["VSTR", "WHICH=0"], unwindset=dict(VSTR, **C11U), small_unwindset=C11U),
    Unit("c11_attr", "C11", ["c11_voucher.c", "../lib/vstr.c"], ["serialize_attr_voucher", "escape_serialize_time", "escape_serialize_array"], src=["array", "voucher", "os"], covered_by="c11_voucher", statics=[("voucher", "serialize_attr_voucher")],
         split=4, defs=["VSTR", "WHICH=1"], unwindset=dict(VSTR, **C11U), small_unwindset=C11U),
    Unit("c11_quote", "C11", ["c21_strings.c", "../lib/vstr.c"], ["serialize_escapestr"], src=["serialize", "os", "array", "keyvalue"], split=4, defs=["VSTR", "WHICH=2"], unwindset=VSTR),
    Unit("c11_json", "C11", ["c11_json.c", "../lib/vstr.c"], ["serialize_keyvalue2json", "sys_realloc_array"], src=["serialize", "os", "array", "keyvalue"], loop_contracts=True, replace_calls=[("dl_list_len", "spec_len"), ("concatenate_keyvalue", "spec_join")],
         defs=["VJSON", "VNO_CALLOC", "VNO_REALLOC", "VLEND", "VNO_VSTRC"], small_defs=["VPLAN"], object_bits=13, split=4, unwindset={}, small_unwind=16),
    *[Unit(f"c12_{n}", "C12", ["c12.c", "../lib/vstr.c"], fs, src=["array", "voucher", "os"], remove=["jsmn_parse", "jsmn_init", "sys_strndup"], covered_by=cb, fallback=cb if w in (1, 2) else None, statics=[("voucher", s) for s in st], replace_calls=rc, split=4, split_limit=60,
           loop_contracts=w < 3, defs=["VSTR", f"WHICH={w}"] + [["VROOT"], ["VATTRS"], ["VSKIP"], [], []][w], unwind=34, unwindset=dict(VSTR, **C12U), small_unwind=100 if w == 0 else 9, small_unwindset=dict(VSTR, **C12U) if w else {"try_text.0": 400, "try_text.1": 400, "try_text.2": 400, "jsmn_parse.0": 400, "jsmn_parse_string$link1.1": 400, "jsmn_parse_string.1": 400, "hint.0": 100, "put.0": 100, "vfmt.0": 100, "fill_bytes.0": 100, **{k: 100 for k in C12U}})
      for w, n, fs, cb, st, rc in (
          (0, "deserialize", ["deserialize_voucher", "is_json_member"], None, [], [("voucher:check_size_str_equal", "spec_equal"), ("voucher:skip_json_token", "spec_skip"), ("voucher:set_json_members_voucher", "spec_members")]),
          (1, "members", ["set_json_members_voucher", "is_json_member"], "c12_deserialize", ["set_json_members_voucher"], [("voucher:set_keyvalue_voucher", "spec_set")]),
          (2, "skip", ["skip_json_token"], "c12_deserialize", ["skip_json_token"], []),
          (3, "member", ["set_keyvalue_voucher", "set_attr_strtime_voucher", "set_attr_strenum_voucher", "set_attr_nstr_voucher", "set_attr_base64_voucher", "set_attr_strbool_voucher"], "c12_deserialize", ["set_keyvalue_voucher"],
           [("voucher:check_size_str_equal", "spec_equal")]),
          (4, "name", ["check_size_str_equal"], "c12_deserialize", ["check_size_str_equal"], []))],
    *[Unit(f"c20_{n}_{w}" if w >= 0 else f"c20_free_{n}", "C20", "c20_load.c", [f"load_{n}_config", f"free_{n}_config_content"], src=["config", "array", "os"], split=4, small_defs=["VPLAN", "VBLOCK_MAX=64"], defs=["VNO_CALLOC", f"ROLE={i}", f"FIELD={w}"],
           replace_calls=[("load_config_value_list", "spec_list"), (f"free_{n}_config_content", "spec_release")] if w >= 0 else [], unwindset=C20U, small_unwindset=dict(C20U, **{"harness.0": 11}))
      for i, (n, m) in enumerate([("masa", 8), ("registrar", 7), ("pledge", 8)]) for w in range(-1, m)],
    Unit("c20_list", "C20", ["c20_list.c", "../lib/vstr.c"], ["load_config_value_list", "push_config_value"], src=["config", "array", "os"], defs=["VCONC"], unwindset=dict(C20L, **VSTR), small_unwindset=C20L, split=4,
         replace_calls=[(f, f"spec_{f}") for f in ("init_array_list", "push_array_list", "free_array_list")]),
    Unit("c20_brski", "C20", "c20_brski.c", ["load_brski_config", "free_config_content"], src=["config", "array", "os"], native_wrap=["fopen", "fclose"], unwindset=C20L, small_defs=["VBLOCK_MAX=64"], small_unwindset=C20L,
         replace_calls=[(f"{a}_{n}_config" + b, f"spec_{a}_{n}") for n in ("masa", "registrar", "pledge") for a, b in (("load", ""), ("free", "_content"))]),
    Unit("c20_certs", "C20", "c20_certs.c", ["load_cert_files"], src=["config", "array", "os"], loop_contracts=True, defs=["VCERTS", "VLEND"], small_defs=["VPLAN"], unwindset=C20L, small_unwindset=dict(C20L, **{"harness.0": 11}), split=4,
         replace_calls=[(f, f"spec_{f}") for f in ("init_array_list", "push_array_list", "free_array_list", "free_binary_array")] + [("dl_list_len", "spec_len")]),
    Unit("c16_requestvoucher", "C16", ["c16.c", "../lib/vcxx.c"], ["masa_requestvoucher", "voucher_req_cb"], cxx=["masa/masa_api"], **CXX),
    Unit("c17_requestvoucher", "C17", ["c17.c", "../lib/vcxx.c"], ["registrar_requestvoucher", "post_voucher_request"], cxx=["registrar/registrar_api"], remove=["get_localtime"], **CXX),
    Unit("c18_simpleenroll", "C18", ["c18.c", "../lib/vcxx.c"], ["registrar_est_simpleenroll", "save_to_log"], cxx=["registrar/registrar_api"], remove=["get_localtime"], **CXX),
    Unit("c18_peer", "C18", ["c18.c", "../lib/vcxx.c"], ["registrar_est_simpleenroll"], cxx=["registrar/registrar_api"], remove=["get_localtime"], defs=["C18_PEER"], **CXX),
    Unit("c19_voucher", "C19", ["c19.c", "../lib/vcxx.c"], ["post_voucher_pledge_request", "verify_masa_pledge_request", "voucher_pledge_request_to_array", "voucher_pledge_request_to_base64"],
         cxx=["pledge/pledge_request"], remove=["get_localtime"], **CXX19),
    Unit("c19_enrol", "C19", ["c19.c", "../lib/vcxx.c"], ["post_sign_cert", "generate_sign_cert", "create_cert_string"],
         cxx=["pledge/pledge_request"], remove=["get_localtime"], defs=["C19_ENROL"], replace_calls=[("post_voucher_pledge_request", "spec_post_voucher")], **CXX19),
    Unit("c09_lemma", "C09", "c09_lemma.c", ["(lemma: prefix count)"], src=["os"]),
]
BYNAME = {u.name: u for u in UNITS}
TRUSTED = [
    "CBMC 6.11.0 (goto-cc, goto-instrument, cbmc) and its SAT back end (MiniSat; CaDiCaL for C08, C09)",
    "lib/verif.h, lib/verif.c: how arbitrary inputs are built, allocation that may be refused, leak accounting",
]
CXX_TRUST = ["clang 18 (C++ to LLVM IR) and lib/cxx2c.py (LLVM IR to C, one statement per instruction; drops exceptional control flow, logging arguments, debug and lifetime markers)",
             "lib/cxx, lib/vcxx.c: declarations and contracts of std::string, std::map, std::unique_ptr in place of libstdc++"]
OSSL = ["OpenSSL obeys the contracts in specs/ossl*.h (results fresh or NULL, ownership as documented, CMS_verify/X509_verify_cert/CMS_sign/X509_sign do what they report); its cryptography is not analysed"]
LIBC = ["libc string and memory functions obey ISO C; malloc and calloc give fresh memory or NULL"]
HTTP = ["httplib and the http wrapper (src/brski/http): a request's body, headers and peer certificate are those of this connection; https_post_request sends what it is given and reports the answer and the peer of that exchange",
        "a request body holds no NUL byte; a request header occurs at most once"]
TRUSTED_BY = {i: CXX_TRUST for i in ("C16", "C17", "C18", "C19")}
VOUCHERS = ["callee contracts of verify_cms_voucher (C05), sign_cms_voucher (C06) and crypto_verify_cert (C07) as in specs/voucher_stubs.h, each checked of the real function by that property"]
ASSUME = ["sizes of caller-owned objects are below 2^40 bytes and pointers passed in are valid for the length passed with them (the preconditions in the specs)", "logging has no effect on the result"]
ASSUME_BY = {
    "C01": VOUCHERS, "C02": VOUCHERS + ["crypto_getcert_serial/crypto_getcert_issuer as in C15"], "C03": VOUCHERS + ["the domain-certificate callback is an arbitrary function of its arguments"], "C04": VOUCHERS,
    "C05": OSSL + ["deserialize_voucher as in C12"], "C06": OSSL + ["serialize_voucher as in C11"], "C07": OSSL, "C08": LIBC, "C09": LIBC, "C10": LIBC,
    "C11": LIBC + ["a serial-number text holds no character that JSON needs escaped (known finding c11_quote)", "base64 and date-time texts as in C08 and C21"],
    "C12": ["jsmn_parse returns token positions inside the text, nested as its documentation says, or a negative result", "base64 as in C09, date-times as in C21"] + LIBC,
    "C13": LIBC, "C14": OSSL, "C15": OSSL, "C20": ["minIni's ini_gets, ini_getl and ini_browse: the value of the first entry of that name, cut to the buffer, the default otherwise; every entry in file order", "file_to_x509buf as in C22"] + LIBC,
    "C21": ["strftime and strptime implement the four conversions used (their results are taken from an independent formatter and parser in specs/c21_time.c)"] + LIBC,
    "C22": OSSL + ["fopen, fclose of libc"],
    "C16": HTTP + ["sign_masa_pledge_voucher as in C03, base64 as in C08/C09, files and lists as in C22/C20"],
    "C17": HTTP + ["sign_voucher_request as in C02, base64 as in C08/C09, certificate identity as in C15, files and lists as in C22/C20"],
    "C18": HTTP + ["crypto_sign_cert as in C14, base64 as in C08/C09, files as in C22; the configured trust is modelled by crypto_verify_cert (C07)"],
    "C19": HTTP + ["sign_pledge_voucher_request and verify_masa_pledge_voucher as in C04/C01, base64 as in C08/C09, key generation and files as in C22, certificate generation as in C14; a connection made with a pinned certificate is refused by TLS unless the peer chains to it"],
}
_C = "contract-based deductive verification of the real C source: pre/postconditions, frame and ghost conditions, callees by contract, obligations discharged by CBMC for all inputs"
TECH = {f"C{i:02d}": _C for i in range(1, 23)}
for _i in ("C05", "C06", "C07", "C08", "C09", "C11", "C12", "C14", "C20"):
    TECH[_i] = _C + "; loop invariants (goto-instrument --apply-loop-contracts)"
for _i in ("C16", "C17", "C18", "C19"):
    TECH[_i] = "contract-based deductive verification of the real C++ source, mechanically translated to C at every run (clang, lib/cxx2c.py): postconditions of the handlers over callee contracts, obligations discharged by CBMC"
NOT_CLAIMED = set()
HOOKS = dict(guard="BRSKI_VERIFY", enable="goto-cc -DBRSKI_VERIFY -include lib/hooks.h: the annotation points VERIFY_LOOP/VERIFY_STEP of src/voucher/serialize.c and crypto_ossl.c expand to loop contracts and ghost steps; without the define they are empty", source_commits=["bbfd90b", "156db5d", "22524b5", "7e62d0e", "724e6dd"])
LEVEL_NOTE = ("Assumes the callee contracts listed in the evidence (assumptions) and CBMC's C semantics with machine arithmetic; "
              "allocations may be refused at any point")
NA = {
    "C23": "schedules of httplib worker threads and C++ context sharing are outside sequential function contracts; no contract verifier for concurrent C++ is installed",
    "C24": "TLS handshakes and httplib (10 k lines of C++ templates, threads and sockets) are outside the reach of the installed C contract verifiers",
}
