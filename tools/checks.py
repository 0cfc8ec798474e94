"""The checks: which monitor programs decide each property, on how many generated cases (quick, thorough)."""
A = "asan"
def P(h, q, t, variant=A, **k):
    return dict(harness=h, variant=variant, cases=(q, t), **k)

CHECKS, NOT_APPLICABLE = {}, {}
def check(id, technique, note, parts, level="exploration", **k):
    CHECKS[id] = dict(technique=technique, note=note, parts=parts, level=level, **k)

check("C08", "online reference-model monitor over randomised streaming histories, under ASan+UBSan",
      "Every call's output, offsets and lengths are compared with an OpenSSL-based model; trusts OpenSSL primitives.",
      [P("c08", 150000, 4000000)])
check("C02", "online rights monitor over an operation catalogue with random usage flags, under ASan+UBSan",
      "Every catalogued operation's outcome is compared with the rights rule; successes are checked against OpenSSL; refusals must "
      "leave no TA memory held and no output written.", [P("c02", 6000, 300000)])
check("C03", "online validity-period monitor over an operation catalogue under a virtual clock, with ASan+UBSan",
      "The clock is set around each key's limits before and inside every catalogued operation; outcome, output and TA memory are compared "
      "with the rule. Trusts the interposed time().", [P("c03", 6000, 300000)], require=["clock-moved-outside"])
check("C04", "online allow-list monitor over an operation catalogue with many caller identities, under ASan+UBSan",
      "Callers and lists include near misses; keys from every creating operation and re-imported ones.", [P("c04", 6000, 300000)],
      require=["origin:reimported", "origin:derived", "origin:unwrapped", "origin:exchanged"])
check("C05", "online output-protection monitor over an operation catalogue with simulated video outputs, under ASan+UBSan",
      "A simulated video_output_poll changes before and during operations; clear and SVP outputs.", [P("c05", 6000, 300000)],
      require=["svp-to-clear:process", "svp-to-clear:process_last", "svp-to-clear:common_encryption"])
check("C06", "online monitor of parent and child rights for every key-making operation, under ASan+UBSan",
      "The header of every new key is compared with the restriction rule, the parent's with what it was.", [P("c06", 10000, 400000)])
check("C01", "online isolation monitor over multi-session histories with a per-object reference model, under ASan+UBSan",
      "Every operation is tried through other sessions and under other callers; owners' objects are compared with a model afterwards.",
      [P("c01", 8000, 200000)],
      require=["other-caller:key_release", "other-session:key_release", "other-caller:svp_release", "other-session:cipher_process",
               "other-session:mac_compute", "session-closed"])
check("C22", "online handle-lifetime monitor over random create/use/release/close histories with object models, under ASan+UBSan",
      "Every operation is tried on released handles and closed sessions; live objects and bystander sessions are compared with models; TA "
      "memory must return to its earlier level.", [P("c22", 6000, 200000)],
      require=["slot-reused:key", "slot-reused:cipher", "slot-reused:mac", "slot-reused:svp", "context-outlives-key:cipher",
               "context-outlives-key:mac", "new-session-same-slot:key", "new-session-same-slot:svp", "after-close:key_import"])
check("C20", "online effect monitor over failing calls, repeated operations and filled tables, with allocation tracking, under ASan+UBSan",
      "TA blocks, locks, slots, all allocations made inside calls, and models of every live object are compared around about 120 sorts of "
      "failing calls and every catalogued operation.", [P("c20", 6000, 200000)],
      require=["filled:key", "filled:cipher", "filled:mac", "filled:svp", "filled:sessions", "growth-measured"])
check("C12", "online reference-model monitor over interleaved MAC contexts, under ASan+UBSan",
      "Every computed MAC is compared with an OpenSSL computation over the modelled data; refused and repeated calls must add nothing.",
      [P("c12", 16000, 600000)], require=["key-material-fed", "refused-after-compute", "failed-feed"])
check("C14", "differential monitor of every derivation against independent reference computations, under ASan+UBSan",
      "Derived keys are compared by size, digest and HMAC with reference results; out-of-range lengths and parameters must be refused and leave no "
      "key or memory.", [P("c14", 12000, 500000)],
      require=["derived:HKDF", "derived:CONCAT", "derived:X963", "derived:CMAC", "derived:NETFLIX", "derived:LADDER", "derived:COMMON_LADDER"])
check("C15", "differential monitor of every exchange against an independent peer, under ASan+UBSan",
      "Secrets are compared by size, digest and HMAC with what an OpenSSL or plain modular-exponentiation peer computes; malformed, foreign and "
      "degenerate public values must be refused.", [P("c15", 8000, 250000)],
      require=["leading-zero:dh-512", "leading-zero:prime256v1", "leading-zero:netflix", "agreed:X25519", "agreed:X448"])
check("C13", "online verification of every signature by an independent verifier, under ASan+UBSan",
      "Every signature reported as made is verified with OpenSSL under the public key the handle reports; parameters that cannot be honoured must be "
      "refused and write nothing.", [P("c13", 8000, 250000)],
      require=["ecdsa-leading-zero", "refused:digest-length", "refused:salt", "pss-salt:max", "verified:ED448", "verified:rsa-512"])
check("C11", "differential monitor of asymmetric decryption against OpenSSL encryption, under ASan+UBSan",
      "Messages encrypted to the key's public key must come back exactly; altered, foreign, misparametrised and degenerate ciphertexts must not, and "
      "refusals must leave the output unwritten.", [P("c11", 8000, 250000)],
      require=["empty:oaep", "empty:pkcs1v15", "longest:oaep", "longest:pkcs1v15", "elgamal-leading-zero", "refused:infinity", "refused:not-reduced",
               "refused:other-label", "refused:other-digest", "refused:other-mgf1"])
check("C16", "differential monitor of unwrapping against OpenSSL wrapping, under ASan+UBSan",
      "Unwrapped keys are compared with the wrapped ones by header, digest, HMAC, public key and a private operation; damaged or unsupported input must "
      "be refused and leave no key or memory.", [P("c16", 40000, 1200000)],
      require=["refused:padding", "refused:tag", "refused:aad", "refused:size", "refused:empty", "refused:other-curve", "refused:range", "refused:rsa-size", "refused:nothing",
               "curve:X448", "curve:ED448"])
check("C09", "online verdict monitor for authenticated and padded decryption against an OpenSSL model, under ASan+UBSan",
      "The verdict on every message (genuine or with ciphertext, AAD, IV, tag or padding changed) and every byte sealed or opened is compared with a model.",
      [P("c09", 60000, 2000000)],
      require=["accepted:gcm:genuine", "accepted:ccp:genuine", "refused:gcm:tag-bit", "refused:ccp:tag-bit", "refused:gcm:aad-bit", "refused:ccp:iv", "refused:gcm:ciphertext-cut",
               "refused:ccp:tag-size", "padding-valid:16", "padding-valid:1", "padding-refused:one-wrong", "padding-refused:over-16", "padding-refused:zero", "finish-again:gcm"])
check("C17", "online reference-model monitor for common encryption samples, under ASan+UBSan",
      "Every sample's output is compared byte by byte with a model written from ISO/IEC 23001-7; malformed samples must be refused and change nothing.",
      [P("c17", 120000, 1500000)],
      require=["decrypted:cenc", "decrypted:cens", "decrypted:cbc1", "decrypted:cbcs", "rollover:cenc", "rollover:cens", "carried", "carried:short", "pattern:skipping", "pattern:huge",
               "several-samples", "refused:overlap", "refused:wrapping-sum", "refused:algorithm", "buffers:svp>svp"])
check("C07", "round-trip and tamper monitor for exported keys, with recorded protection-key derivations, under ASan+UBSan",
      "Imported keys are compared with the exported ones by header, material and behaviour; damaged containers must be refused and leave nothing; clear "
      "material, repeated protected blocks and shared protection keys are looked for in every export.", [P("c07", 8000, 400000)],
      require=["refused:bit", "refused:each byte", "refused:spliced", "refused:truncated", "refused:not cacheable", "refused:not owner", "imported:DH", "imported:EC",
               "imported:RSA", "imported:child", "twice", "used"])
check("C10", "output-size monitor in guarded memory with reference results, under ASan+UBSan",
      "Every operation that returns data is queried, offered short buffers and then served; lengths, guards, offsets, the bytes beyond the result and the "
      "result itself are checked.", [P("c10", 5000, 1000000)],
      require=["short:export", "short:name", "short:cmac", "short:public:dh", "short:sign:ED448", "fit:elgamal-prime256v1", "fit:oaep-128", "short:AES_GCM/enc/last"])
check("C18", "byte-exact model of protected memory under simulated SVP regions, under ASan+UBSan",
      "The whole arena is compared with a model after every operation; ranges that do not fit or overflow, unprotected memory and clear buffers over "
      "protected memory must be refused.", [P("c18", 120000, 1500000)],
      require=["create:refused:outside", "create:refused:past the end", "write:ok:fits", "copy:ok:same buffer", "copy:refused:output overflow",
               "cipher:refused:clear output over protected memory", "buffer-check:ok:equal", "key-check:ok:equal, key needs SVP", "write:refused:memory no longer protected",
               "release:refused:refused by the platform", "alloc-free"])
check("C28", "metadata and identity monitor over every way of making a key, under ASan+UBSan",
      "Header, digests and public key of every handle of a key are compared with the key's own after creation, use, failing calls and re-creation.",
      [P("c28", 3000, 300000)],
      require=["checked:made", "checked:generated", "checked:after use", "checked:unwrapped with CTR", "checked:unwrapped with GCM", "checked:exported and imported",
               "checked:made by an operation, after use", "checked:another handle, at the end"])
check("C29", "online freshness and coverage monitor of all random output, with a failing random source, under ASan+UBSan",
      "Every value drawn (random output, generated keys, export nonces, randomised signatures, over calls, threads and sessions) is compared with all earlier ones; "
      "byte counts, guards and every position's variation are checked.", [P("c29", 1200, 60000)],
      require=["random", "threads:one-session", "threads:own-sessions", "unique:generated-key", "unique:ecdsa-r", "unique:pss-salt", "unique:export-block",
               "source-failed:key_export:-1", "positions-judged"])
check("C24", "online monitor of TypeJ imports against an independent container model, with hostile containers, under ASan+UBSan",
      "Genuine containers must give a key with exactly the rights, size and material they state; altered, re-authenticated malformed and hostile ones must be "
      "refused (or do no harm) and leave nothing.", [P("c24", 9000, 500000)],
      require=["material-checked", "accepted:v1:alg0", "accepted:v3:alg3", "refused:altered text", "refused:altered MAC", "refused:MAC of another length", "refused:cut",
               "refused:too many TAs", "refused:bad padding"])
check("C25", "online monitor of SoC container imports against an independent container model, with hostile containers, under ASan+UBSan",
      "Genuine containers (sealed under the device or common root ladder) must give a key with exactly the rights, size and material they state; altered, "
      "re-sealed malformed and hostile ones must be refused and leave nothing.", [P("c25", 4000, 300000)],
      require=["material-checked", "root:1", "refused:truncated tag", "refused:altered iv", "refused:unknown key type", "refused:value altered above its low byte",
               "refused:too many TAs"])
check("C19", "online monitor of the command interface under altered genuine commands and memory that changes while commands run, under ASan+UBSan",
      "Commands of the client library are intercepted; altered types, sizes, references and contents go to the TA in exactly sized buffers, with shared memory rewritten "
      "at the TA's allocations, locks and compares or by a concurrent thread. Malformed commands must be refused, inputs and guards stay untouched, no uninitialised memory "
      "come back, imported keys be the authenticated ones, and every other object keep working.", [P("c19", 3600, 200000)],
      require=["memory-changes", "altered:accepted", "altered:refused", "changing-container:refused", "provision:OK", "malformed:direction of params[1]",
               "malformed:size of the parameters", "malformed:buffer type", "malformed:subsample count", "malformed:stated length"])
check("C26", "allocation-fault injection with outcome, leak, lock and slot monitors, under ASan+UBSan",
      "Every allocation of the TA, and a sample of OpenSSL's, is made to fail in turn in every call of random activities (operations, life cycles, imports, provisioning, "
      "invalid calls): the call must fail cleanly or give the right result, hold no lock, slot or memory, and work when tried again.",
      [P("c26", 200, 12000)], require=["faults", "slots-counted", "survived"])
check("C23", "monitor of every block given back, searched for registered secrets, on success and under allocation faults, under ASan+UBSan",
      "The contents of every block the TA frees or reallocates (and every OpenSSL number or block it frees itself) are kept and searched for every key, ladder key, shared "
      "secret and plaintext of the activity. Memory OpenSSL holds internally is out of reach.",
      [P("c23", 480, 20000)], require=["blocks-searched", "faults"])
check("C21", "race detector (TSan) and history checking against sequential orders under randomised delays; the same under ASan+UBSan",
      "Threads share sessions, keys, contexts and buffers, with delays injected at every lock and allocation of the TA; results are checked for a sequential explanation. "
      "Schedules are sampled, not enumerated; OpenSSL is not instrumented for races.",
      [P("c21", 2400, 60000, variant="tsan"), P("c21", 8000, 300000)],
      require=["first-use", "overlapping-calls", "locks-contended", "closed-in-use", "released:key", "released:cipher", "released:mac", "released:svp",
               "shared:SVP", "shared:CMAC", "shared:HMAC", "filled:key", "own:client", "own:one-session", "own:sessions", "release:use-before", "release:use-after"])
check("C27", "differential monitor of the OpenSSL provider beside plain OpenSSL under ASan+UBSan, with a key handle ledger",
      "Random flows over every algorithm the provider offers run step for step on two contexts, one of the provider and one of OpenSSL's own, with random splits, "
      "size queries, duplicates, resets, refused steps and room for the output; statuses, outputs and gettable parameters must agree and every key handle the "
      "provider made, and no other, must be released at the end.", [P("c27", 1900, 120000)],
      require=["flow:cipher", "flow:mac", "flow:digest", "flow:kdf", "flow:keys", "flow:sign", "flow:crypt", "flow:derive", "kbkdf"])
check("C30", "client/TA comparison monitor at linker-wrapped entry points with argument spoiling, under ASan+UBSan",
      "Each client call's arguments, status and outputs are compared with the TA call it made; before it the same call with one argument spoilt must be refused "
      "and change nothing.", [P("c30", 2800, 120000)],
      require=["calls-compared", "calls-spoilt", "composite:svp", "cenc-parts", "cenc-parts:svp to svp", "offsets:clear to clear", "both-refuse:crypto_cipher_init"])
