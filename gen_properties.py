#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so the text is reviewed in one place)"""
import json
V = "src/voucher/"
B = "src/brski/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A pledge accepts only an authentic voucher made for it and this registrar",
  "The pledge reports a received voucher as accepted only if its signature was verified against the caller's manufacturer trust anchors, its serial-number equals the pledge's, it echoes the nonce that was sent (when one was sent), it carries a pinned domain certificate, and the registrar's TLS certificate passed the chain check against that pinned certificate and the caller's domain store. The certificate handed out is then exactly the pinned one, nothing is handed out on rejection, and a voucher that meets every condition is accepted.",
  ["inputs", "fault_sequences"], "every voucher content, serial number, nonce, certificate and trust store, every outcome of signature and chain checks, every allocation failure",
  "test_request.c accepts one good voucher and rejects a handful; it cannot enumerate contents, lengths, prefixes or combinations of missing fields, nor a refused allocation",
  [V + "request.c", V + "voucher.c", V + "array.c"], [("verify_masa_pledge_voucher", V + "request.c"), ("compare_binary_array", V + "array.c")],
  observe=["return value and pinned_domain_cert of verify_masa_pledge_voucher"])
p("C02", "A registrar countersigns only authentic, consistent pledge requests",
  "The registrar produces a signed voucher request only if the pledge's request verified against the pledge trust anchors, names exactly the serial number of the pledge's device certificate, carries exactly this registrar's certificate as proximity certificate and asserts proximity; a request meeting all of this is countersigned. What it signs with its own certificate and key is exactly: the given time, that serial number, the given device issuer, the pledge's nonce if and only if the pledge sent one, and the complete pledge request, and nothing else.",
  ["inputs", "fault_sequences"], "every pledge request content, serial number, issuer, certificate, key and list argument, every allocation or signing failure",
  "test_request.c runs one consistent request and a few wrong ones; absent fields, near-equal serial numbers and certificates, nonce absence and failures are not reached",
  [V + "request.c", V + "voucher.c"], [("sign_voucher_request", V + "request.c")], observe=["content handed to CMS signing", "return value"])
p("C03", "A MASA issues vouchers only for authentic, consistent requests",
  "The MASA signs a voucher only if the registrar's request verified against the registrar trust anchors, the pledge request embedded in it verified against the pledge trust anchors, both name the same serial number and the domain-certificate decision for that serial number and those registrar certificates succeeded; requests meeting all of this get a voucher. The voucher, signed with the MASA's certificate and key, carries exactly the request's nonce (if any), assertion proximity, the decided pinned certificate, that serial number, revocation checks off and the given expiry, and nothing else.",
  ["inputs", "fault_sequences"], "every pair of requests, every callback behaviour, every certificate, key and list argument, every allocation or signing failure",
  "test_request.c issues one voucher for one consistent pair; which request is checked against which trust anchors and every missing or differing field is not sampled",
  [V + "request.c", V + "voucher.c"], [("sign_masa_pledge_voucher", V + "request.c")], observe=["content handed to CMS signing", "callback arguments", "return value"])
p("C04", "A pledge's voucher request carries exactly what the pledge was given",
  "A pledge voucher request is signed with the given pledge certificate, key and additional certificates and carries exactly the given creation time, serial number, nonce (absent when none is given), registrar TLS certificate as proximity certificate and assertion proximity, and nothing else. A missing or over-long serial number or a missing certificate yields no request, and a value that is given is never left out or shortened; complete inputs yield a request.",
  ["inputs", "fault_sequences"], "every time, serial number up to beyond the size limit, nonce, certificate, key and list argument, every allocation or signing failure",
  "tests build one request from fixed short values; boundary lengths, absent values and failures are not sampled",
  [V + "request.c", V + "voucher.c"], [("sign_pledge_voucher_request", V + "request.c")], observe=["content handed to CMS signing", "return value"])
p("C05", "Signed messages are accepted only when genuinely verified",
  "Verifying a CMS message succeeds only if the message decoded, its signature and content were verified and, when a trust store is supplied, its signer chains to exactly the certificates and revocation lists in that store, with exactly the supplied extra certificates available as untrusted ones. The payload returned is exactly the authenticated content, the signer list (when asked for) is exactly the message's signers, and a voucher obtained from a message is the parse of that payload only.",
  ["inputs", "fault_sequences", "configurations"], "every message, certificate list and trust store, every verdict and failure of the cryptographic library, every allocation failure",
  "test_crypto.c verifies self-made messages with one good and one bad store; wrong flags, dropped store entries, swapped arguments and failure paths still pass it",
  [V + "crypto_ossl.c", V + "voucher.c"], [("crypto_verify_cms", V + "crypto_ossl.c"), ("verify_cms_voucher", V + "voucher.c")], observe=["return value, data and out_certs"])
p("C06", "Signing covers exactly the given bytes with the given key and certificates",
  "Signing a message passes exactly the given bytes, as embedded binary content, the given signer certificate, the given private key decoded as the requested key kind and exactly the given additional certificates to the signature operation, and returns exactly the encoding of the result. Content too large for the library (2 GiB or more) is refused. Signing a voucher signs exactly the voucher's JSON text, without terminator or truncation; any decoding, signing or encoding failure yields an error, no output and no leak.",
  ["inputs", "fault_sequences", "configurations"], "every payload, certificate, key and certificate list, every failure of the cryptographic library",
  "tests check that some output is produced or that one round trip works; content flags, the additional certificates and failure paths are not compared",
  [V + "crypto_ossl.c", V + "voucher.c"], [("crypto_sign_cms / crypto_sign_eccms / crypto_sign_rsacms", V + "crypto_ossl.c"), ("sign_cms_voucher / sign_eccms_voucher / sign_rsacms_voucher", V + "voucher.c")], observe=["arguments of CMS_sign", "output buffer"])
p("C07", "The certificate chain check accepts only chains the library built",
  "Checking a certificate succeeds exactly when the given certificate, all supplied intermediate certificates and all entries of the supplied trust store decode and the library builds a non-empty chain for that very certificate from exactly those intermediates and exactly that trust store (certificates as certificates, revocation lists as revocation lists). Every other outcome, including any failure on the way, is a rejection.",
  ["inputs", "fault_sequences", "configurations"], "every certificate, intermediate list and trust store content, every library failure",
  "test_crypto.c builds one good and one bad chain; an ignored store entry or a swallowed decode failure is not visible to it",
  [V + "crypto_ossl.c"], [("crypto_verify_cert", V + "crypto_ossl.c"), ("get_certificate_stack, get_certificate_store", V + "crypto_ossl.c")], observe=["return value"])
p("C08", "Base64 encoding is exact for every byte string",
  "Encoding any byte string yields exactly its standard padded base64 text on one line, NUL-terminated, with the returned length being the text length; memory outside the text is never touched. A string too large to encode or a refused allocation yields an error and no output.",
  ["inputs", "fault_sequences"], "every byte string of every length, every allocation failure",
  "test_serialize.c encodes two literals", [V + "serialize.c"], [("serialize_array2base64str", V + "serialize.c")], observe=["output text and length"], hook="loop annotations")
p("C09", "Base64 decoding inverts encoding and is safe on arbitrary text",
  "Decoding the base64 text of any non-empty byte string gives back exactly that byte string and its length. Decoding arbitrary text never reads or writes outside the text and the result, ignores characters outside the alphabet, and either returns an owned result whose length is what was written or fails leaving no output, no leak and no dangling result pointer.",
  ["inputs", "fault_sequences"], "every text of every length including malformed padding and foreign characters, every allocation failure",
  "test_serialize.c decodes two literals", [V + "serialize.c"], [("serialize_base64str2array", V + "serialize.c")], observe=["output bytes, length and pointer"], hook="loop annotations")
p("C10", "Voucher attributes: each setter changes exactly its own attribute",
  "Setting a voucher attribute to a valid value makes that attribute present and readable back as an independent copy of exactly that value, clearing makes it absent, and neither changes any other attribute. A wrong attribute kind, a value outside the permitted range or size, or a refused allocation is an error that leaves every other attribute untouched, and replacing or clearing a value never leaves it leaked, shared or dangling.",
  ["inputs", "histories", "fault_sequences"], "every voucher state, attribute and value (hence every sequence of set, clear and get operations), every allocation failure",
  "test_voucher.c sets and reads each attribute once from an empty voucher; it never checks the other ten attributes, repeated sets, boundaries of size or failure",
  [V + "voucher.c", V + "array.c"], [("set_attr_*_voucher, clear_attr_voucher, get_attr_*_voucher, is_attr_voucher_nonempty, free_voucher", V + "voucher.c")], observe=["voucher contents", "return values"])
p("C11", "A voucher's JSON contains each present attribute exactly once, exactly",
  "Serialising a voucher yields one JSON object with the single voucher root whose members are exactly the present attributes, each once, under its own standard name and with its own value: quoted date-time, assertion name, serial number or base64 text, and an unquoted boolean. No attribute is dropped, renamed, swapped or invented, and if any part cannot be produced there is no output at all.",
  ["inputs", "fault_sequences"], "every voucher state (every combination of present attributes and values), every allocation failure",
  "test_voucher.c compares the text of a few hand-made vouchers", [V + "voucher.c", V + "serialize.c", V + "keyvalue.c"],
  [("serialize_voucher", V + "voucher.c"), ("serialize_keyvalue2json, concatenate_keyvalue, serialize_escapestr", V + "serialize.c")], observe=["returned text"])
p("C12", "Parsing voucher JSON is safe and takes each value under its own name only",
  "Parsing any byte sequence as voucher JSON never reads outside it and yields either nothing or a voucher in which each attribute is present only if a member with exactly its standard name occurred directly under the voucher root, holding the conversion of exactly that member's value. Unknown names, wrong values, a missing root or malformed structure give no voucher, and nothing leaks, also with repeated members.",
  ["inputs", "fault_sequences"], "every byte sequence and token structure, every allocation failure",
  "test_voucher.c parses a few well-formed texts; prefixes of names, repeated or nested members, truncated tokens and failures are not sampled",
  [V + "voucher.c"], [("deserialize_voucher, set_keyvalue_voucher", V + "voucher.c")], observe=["returned voucher"])
p("C13", "Byte arrays and lists copy, compare and append faithfully",
  "Copying a byte array gives an independent equal array, comparing reports equality exactly when lengths and all bytes agree, and appending to an array list or a key-value list adds one independent copy at the end and changes nothing already there. A failed operation reports an error, leaves the existing elements intact and leaks nothing, and freeing a list releases every element exactly once.",
  ["inputs", "histories", "fault_sequences"], "every array content and length, every list and appended element, every allocation failure",
  "tests push two or three elements and compare two fixed arrays", [V + "array.c", V + "keyvalue.c", "src/utils/os.c"],
  [("copy_binary_array, compare_binary_array, push_array_list, free_array_list", V + "array.c"), ("push_keyvalue_list, free_keyvalue_list", V + "keyvalue.c"), ("sys_memdup, sys_strndup", "src/utils/os.c")], observe=["array and list contents", "return values"])
p("C14", "Issued certificates are signed as asked, with exactly the given content",
  "Generating a certificate produces one that carries exactly the given serial number, validity, names and constraints and the public key of the given key, signed by that key; signing an existing certificate changes only its issuer, to the subject of the given CA certificate, and signs it with the given key. A certificate whose signature does not verify is never returned, and on any failure the caller's certificate is left as it was.",
  ["inputs", "fault_sequences"], "every metadata, key and certificate, every library failure", "test_crypto.c generates and signs one certificate per key kind and checks success only",
  [V + "crypto_ossl.c"], [("crypto_sign_cert, crypto_generate_eccert, crypto_generate_rsacert", V + "crypto_ossl.c")], observe=["library calls and output"])
p("C15", "Certificate identity is read from the right field of the right name",
  "The issuer, subject and serial-number information reported for a certificate is exactly what the certificate's own issuer name, subject name and serial number hold: the first entry of each recognised kind is reported once under its own short name, issuer entries as issuer and subject entries as subject, the serial number when it fits 64 bits (otherwise 0), and the device serial number reported is the subject's serialNumber entry, or none if there is none.",
  ["inputs", "fault_sequences"], "every certificate (every combination of present entries), every library or allocation failure", "test_voucher and test_crypto do not compare metadata with a certificate's content",
  [V + "crypto_ossl.c"], [("crypto_getcert_meta, get_x509_keyvalue, get_x509_entry, crypto_getcert_serial, crypto_getcert_issuer", V + "crypto_ossl.c")], observe=["returned lists and buffers"])
p("C16", "The MASA service answers a voucher only for a request its signing step accepted",
  "The MASA's voucher endpoint answers success with exactly the base64 text of the voucher its signing step produced for the decoded request body, using the configured expiry, MASA certificate and key and the configured trust lists, and the pinned certificate it decides on is the configured domain certificate signing chain for that request alone. Any failure (undecodable body, refused request, failed encoding) answers an error status and no voucher.",
  ["inputs", "fault_sequences", "configurations"], "every request body and configuration, every failure of a step", "no test runs the HTTP handlers' failure paths",
  [B + "masa/masa_api.cpp"], [("masa_requestvoucher", B + "masa/masa_api.cpp")], observe=["response status and body"])
p("C17", "The registrar forwards only countersigned requests, never a false success",
  "The registrar's voucher endpoint countersigns only the request received over this connection, with the serial number and issuer of the connecting peer's own certificate, forwards exactly that countersigned request to the configured MASA, and answers success with exactly the MASA's voucher only if the exchange succeeded and the MASA answered no error status (below 400). Any missing peer certificate, undecodable body, refused request or failed exchange answers an error status.",
  ["inputs", "fault_sequences", "configurations"], "every request body, peer certificate, MASA answer and configuration, every failure of a step", "no test runs the HTTP handlers' failure paths",
  [B + "registrar/registrar_api.cpp"], [("registrar_requestvoucher, post_voucher_request", B + "registrar/registrar_api.cpp")], observe=["response status and body", "request sent to the MASA"])
p("C18", "The registrar signs a device certificate only for a verified peer",
  "The registrar's enrolment endpoint signs a submitted certificate only if the connecting peer presented a certificate that verified against the configured manufacturer trust, and then answers exactly the base64 text of that certificate signed with the configured domain CA. Any failure answers an error status and no certificate.",
  ["inputs", "fault_sequences", "configurations"], "every request body, peer certificate and configuration, every failure of a step", "no test runs the HTTP handlers' failure paths",
  [B + "registrar/registrar_api.cpp"], [("registrar_signcert", B + "registrar/registrar_api.cpp")], observe=["response status and body"])
p("C19", "A pledge uses a registrar only after accepting its voucher",
  "The pledge client sends a request bound to the TLS certificate of the registrar it is connected to, and hands out a pinned certificate only if the registrar answered success and the decoded answer was accepted as a voucher for its own configured serial number, the nonce it sent and the certificate of the registrar that answered. It enrols only after that, over a connection verified against exactly that pinned certificate, for the key it generated. Any failure is reported as an error.",
  ["inputs", "fault_sequences", "configurations"], "every registrar answer, configuration and failure of a step", "no test exercises the pledge client's failure paths",
  [B + "pledge/pledge_request.cpp", B + "pledge/pledge_utils.c"], [("post_voucher_pledge_request, verify_masa_pledge_request", B + "pledge/pledge_request.cpp"), ("voucher_pledge_request_to_array", B + "pledge/pledge_utils.c")], observe=["return values and outputs"])
p("C20", "Each configuration key ends up in its own setting and nowhere else",
  "Loading a configuration file stores the value of each key of each section in the setting of that name of that role, untouched: paths, ports, addresses and certificate lists are neither swapped between roles nor between keys, a key without a value leaves its setting unset (or at its documented default), a repeated list key yields every one of its values in file order, and loading the configured certificates yields one certificate per configured path in order. A failure to load is reported without a dangling result, and freeing a loaded or partly loaded configuration releases everything exactly once.",
  ["inputs", "configurations", "fault_sequences"], "every configuration content, every allocation failure", "test_config checks one sample file",
  [B + "config.c"], [("load_brski_config, load_*_config, free_config_content", B + "config.c")], observe=["struct brski_config"])
p("C21", "Booleans, date-times and strings convert without loss or overflow",
  "A boolean's text reads back as the same boolean and any text other than 0, 1, true or false (any letter case) is refused; a date-time with a four-digit year is written as YYYY-MM-DDTHH:MM:SSZ and read back field for field, and a text that does not begin with a date-time of that form is refused. Quoting a string yields exactly that string between double quotes, and joining a name and a value yields exactly name, colon, value and an optional comma; no conversion writes outside its buffer.",
  ["inputs", "fault_sequences"], "every text, length, time value and string, every allocation failure", "test_serialize.c converts a handful of literals",
  [V + "serialize.c", "src/utils/os.c"], [("serialize_bool2str, serialize_str2bool, serialize_time2str, serialize_str2time, serialize_escapestr, concatenate_keyvalue", V + "serialize.c")], observe=["outputs and return values"])
p("C22", "Key and certificate material converts without loss and is never leaked",
  "Loading a certificate or private key from a file, generating a key, or copying or exporting a certificate returns exactly the DER encoding of that object with its exact length, or an error with no output; writing one to a file writes that object, and a random buffer is filled completely. Key objects are released on every path and a failure never leaves a dangling or partial result.",
  ["inputs", "fault_sequences"], "every object, file outcome and library or allocation failure", "tests cover the success paths only",
  [V + "crypto_ossl.c"], [("file_to_x509buf, file_to_keybuf, crypto_cert2buf, crypto_copycert, crypto_generate_eckey, crypto_generate_rsakey, certbuf_to_file, keybuf_to_file, crypto_getrand", V + "crypto_ossl.c")], observe=["output buffers"])
p("C23", "The services stay correct under concurrent connections",
  "Requests served at the same time by one MASA or registrar process are answered as if each had been served alone: the outcome for one connection never depends on certificates, requests or state of another.",
  ["schedules", "histories"], "every interleaving of concurrent requests", "no test issues concurrent requests",
  [B + "masa/masa_api.cpp", B + "registrar/registrar_api.cpp"], [("MasaContext, RegistrarContext shared by handlers", B + "masa/masa_api.hpp")], observe=["response per connection"])
p("C24", "Transport security is enforced by the HTTPS server and client",
  "Each service presents exactly its configured TLS certificate and key, the registrar requests the pledge's certificate, and the client exposes the peer's actual certificate of the connection to the code that decides on it.",
  ["inputs", "configurations"], "every TLS peer and configuration", "no test establishes TLS connections against hostile peers",
  [B + "http/httplib_wrapper.cpp", B + "http/https_server.cpp"], [("httplib SSLServer and SSLClient", B + "http/httplib.h")], observe=["TLS handshakes"])
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
