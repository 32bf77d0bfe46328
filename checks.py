"""Registry of checks: for every property the harnesses, jobs (parameters per tier), bounds and assumptions."""
GLOBAL_ASSUMPTIONS = [
    "LLVM IR produced by clang 18 (-O0-like, mem2reg/early-cse/simplifycfg only) has the semantics of the gcc build",
    "the symbolic executor in /verif/engine and Z3 4.8.12 (cvc5 as fallback) are correct; counterexamples are replayed natively before being reported",
    "single-threaded execution; memory allocation never fails",
]
CHECKS = {}
def check(pid, **kw):
    CHECKS[pid] = kw
def J(name, harness, tiers="qt", secs=300, opts=(), covers=("end",), **params):
    return dict(name=name, harness=harness, tiers=tiers, secs=secs, opts=list(opts), params=params, covers=list(covers))
NOT_APPLICABLE = {
    "C22": "puncturable encryption needs the RELIC pairing library, which is not installed: neither the wrapper sources nor their callers compile here, so there is no real code to encode",
}
def get(pid, tier):
    c = dict(CHECKS[pid])
    c["jobs"] = [j for j in c["jobs"] if tier[0] in j["tiers"]]
    return c

check("C20",
    harnesses={"c20": dict(src="c20.cpp")},
    jobs=[J("small", "c20", N=6, M=3)] + [J("n%d-m%d" % (n, m), "c20", N0=n, N=n, M0=m, M=m) for n in (7, 8, 9) for m in (1, 2, 3, 4, 5)] + [J("long-n%d-m%d" % (n, m), "c20", N0=n, N=n, M0=m, M=m) for n, m in ((12, 11), (20, 19), (18, 16), (34, 33), (50, 49), (16, 16), (64, 64), (257, 257))] +
         [J("ends-n%d-m%d" % (n, m), "c20", N0=n, N=n, M0=m, M=m, ends=m) for n, m in ((16, 2), (65, 2), (129, 1), (256, 2), (257, 1), (300, 2), (1025, 1))] +
         [J("t-big", "c20", tiers="t", N=9, M=5, secs=1500)],
    bounds={"quick": "haystack 0..9 bytes, pattern 0..5 bytes; patterns of up to 49 bytes in haystacks at most 2 bytes longer, patterns of 64 and 257 bytes in haystacks of the same length; haystacks of up to 1025 bytes with literal middle, patterns of 1 and 2 bytes", "thorough": "as quick"},
)

C01_R = [(1, 60), (61, 120), (121, 180), (181, 240), (241, 300)]
C01_W = (512, 1024, 2048, 4096, 8192, 16384)
check("C01",
    harnesses={"c01": dict(src="c01.cpp")},
    jobs=[J("str-%d-%d" % (a, b), "c01", mode=0, lo=a, hi=b) for a, b in C01_R] + [J("str-%d" % n, "c01", mode=0, lo=n - 2, hi=n + 2) for n in C01_W] +
         [J("str-%d" % n, "c01", mode=0, lo=n - 1, hi=n + 1) for n in (32768, 65536)] + [J("str-%d" % n, "c01", mode=0, lo=n, hi=n) for n in (100000, 131072, 262145)] +
         [J("arr", "c01", mode=1, lo=1, hi=7), J("empty", "c01", mode=5)] +
         [J("t-str-%d" % n, "c01", tiers="t", mode=0, lo=n, hi=n + 99, secs=1500) for n in range(301, 1200, 100)] + [J("t-str-1M", "c01", tiers="t", mode=0, lo=1048575, hi=1048577, secs=1500)],
    bounds={"quick": "message lengths 1..300, within 2 of 512, 1024, 2048, 4096, 8192 and 16384, within 1 of 32768 and 65536, and 100000, 131072, 262145 bytes (strings), 1,15,16,33,64,65,130 (arrays); key, message and nonce arbitrary",
            "thorough": "also message lengths up to 1200 and 1048575..1048577"},
    assumptions=["BLAKE2b, ChaCha20 and Poly1305 are uninterpreted functions"],
)
C2 = ("accepted", "rejected", "end")
check("C02",
    harnesses={"c01": dict(src="c01.cpp")},
    jobs=[J("str-%d-%d" % (a, b), "c01", mode=2, lo=a, hi=b, covers=C2) for a, b in ((1, 25), (26, 50), (51, 75), (76, 100), (101, 130))] +
         [J("str-%d" % n, "c01", mode=2, lo=n - 1, hi=n + 1, covers=C2) for n in (256, 512)] + [J("str-%d" % n, "c01", mode=2, lo=n, hi=n, covers=C2) for n in (1024, 2048)] +
         [J("t-str-%d" % n, "c01", tiers="t", mode=2, lo=n, hi=n, sparse=20, secs=1500, covers=C2) for n in (4096, 8192)] +
         [J("arr", "c01", mode=3, lo=1, hi=4, covers=C2), J("short", "c01", mode=4, lo=0, hi=32),
          J("t-str-131-400", "c01", tiers="t", mode=2, lo=131, hi=400, secs=1500, covers=C2)],
    bounds={"quick": "offered ciphertexts of 0..162 bytes, within 1 of 288 and 544, 1056 and 2080 bytes (strings) and 33, 48, 49, 97 (arrays), every byte arbitrary",
            "thorough": "also 163..432, 4128 and 8224 bytes (the last two differing from a genuine ciphertext in the first, middle and last 20 bytes)"},
    assumptions=["BLAKE2b, ChaCha20 and Poly1305 are uninterpreted functions"],
)
check("C03",
    harnesses={"c03": dict(src="c03.cpp")},
    jobs=[J("hash-0-150", "c03", mode=0, lo=0, hi=150), J("hash-151-300", "c03", mode=0, lo=151, hi=300)] + [J("hash-%d" % n, "c03", mode=0, lo=n - 1, hi=n + 1) for n in (512, 1024, 4096, 16384, 65536)] +
         [
          J("trunc-0-3", "c03", mode=1, lo=0, hi=3, covers=("ok", "toolong", "end")), J("trunc-200", "c03", mode=1, lo=200, covers=("ok", "toolong", "end")),
          J("trunc-huge", "c03", mode=1, lo=2, maxout=2**64-1, covers=("ok", "toolong", "end")),
          J("null", "c03", mode=2)] +
         [J("mac-%d-%d" % (a, b), "c03", mode=3, lo=a, hi=b, trunc=0) for a, b in ((0, 20), (21, 70), (71, 119), (120, 130), (131, 200), (255, 260), (511, 513), (1023, 1025), (4095, 4097), (65535, 65537))] + [J("mact-0-1", "c03", mode=3, lo=0, hi=1), J("mact-65", "c03", mode=3, lo=65)],
    bounds={"quick": "inputs of 0..300 bytes and within 1 of 512, 1024, 4096, 16384 and 65536 (hash), 0..200, 255..260 bytes and within 1 of 512, 1024, 4096, 65536 (hmac, key sizes 16,17,25,32,127,128); every output length 0..64 and any longer requested length",
            "thorough": "as quick"},
    assumptions=["BLAKE2b and SHA-512 are uninterpreted functions"],
)
check("C04",
    harnesses={"c04": dict(src="c04.cpp")},
    jobs=[J("in-0-%d" % v, "c04", mode=0, lo=0, hi=40, v0=v, v1=v) for v in range(0, 13)] +
         [J("inbig-%d" % v, "c04", mode=0, lo=0, hi=2, v0=v, v1=v) for v in (13, 14, 15)] +
         [J("in-64", "c04", mode=0, lo=62, hi=66, v0=3, v1=8), J("in-127", "c04", mode=0, lo=126, hi=130, v0=3, v1=8), J("in-256", "c04", mode=0, lo=255, hi=257, v0=3, v1=8), J("in-41-61", "c04", mode=0, lo=41, hi=61, v0=3, v1=8), J("in-67-125", "c04", mode=0, lo=67, hi=125, v0=3, v1=8), J("in-512", "c04", mode=0, lo=511, hi=513, v0=3, v1=8), J("in-1024", "c04", mode=0, lo=1023, hi=1025, v0=3, v1=8), J("in-4096", "c04", mode=0, lo=4095, hi=4097, v0=3, v1=8), J("in-65536", "c04", mode=0, lo=65536, hi=65536, v0=3, v1=8),
          J("arr", "c04", mode=1, v0=0, v1=6), J("derive", "c04", mode=2, lo=0, hi=20, v0=0, v1=6), J("null", "c04", mode=3, v0=0, v1=3)],
    bounds={"quick": "output sizes 1,12,16,32,63,64,65,127,128,129,200,256,257 with inputs of 0..40 bytes, six of them (32..128) with inputs of 41..130, 255..257, 511..513, 1023..1025, 4095..4097 and 65536 bytes; output sizes 1000, 4096, 16384 with inputs of 0..2 bytes; derived keys of 16..128 bytes",
            "thorough": "as quick"},
    assumptions=["BLAKE2b is an uninterpreted function", "output sizes above 16384 bytes (where the one-byte counter would repeat) are outside the bound"],
)
check("C05",
    harnesses={"c05": dict(src="c05.cpp")},
    jobs=[J("raw-0-20", "c05", mode=0, lo=0, hi=20), J("raw-60-68", "c05", mode=0, lo=60, hi=68), J("raw-126-130", "c05", mode=0, lo=126, hi=130), J("raw-190", "c05", mode=0, lo=190, hi=194), J("raw-21-40", "c05", mode=0, lo=21, hi=40), J("raw-41-59", "c05", mode=0, lo=41, hi=59), J("raw-69-70", "c05", mode=0, lo=69, hi=70), J("raw-4096", "c05", mode=0, lo=4096, hi=4096), J("raw-255-257", "c05", mode=0, lo=255, hi=257), J("raw-512", "c05", mode=0, lo=511, hi=513), J("raw-1024", "c05", mode=0, lo=1024, hi=1025),
          J("zero", "c05", mode=1, lo=0, hi=140), J("zero-big", "c05", mode=1, lo=141, hi=260), J("zero-1024", "c05", mode=1, lo=1023, hi=1025), J("zero-4096", "c05", mode=1, lo=4095, hi=4097), J("zero-65536", "c05", mode=1, lo=65536, hi=65537), J("empty", "c05", mode=3)] +
         [J("keys-%d" % v, "c05", mode=2, v0=v, v1=v) for v in range(8)],
    bounds={"quick": "any 63-bit offset, output lengths 0..70, 126..130, 190..194, 255..257, 511..513, 1024..1025, 4096; zero offset with lengths 0..260, 1023..1025, 4095..4097, 65536..65537; key sizes 16,24,32,48,64,65,100,128, any 16-bit key index, batches of 0..5 keys",
            "thorough": "as quick"},
    assumptions=["ChaCha20 is an uninterpreted function of key, nonce and block counter"],
)
check("C14",
    harnesses={"c14": dict(src="c14.cpp")},
    jobs=[J("hist-1", "c14", mode=0, L=1), J("hist-2", "c14", mode=0, L=2), J("hist-2-long", "c14", mode=0, L=2, longer=2), J("ctor", "c14", mode=1), J("ctor-same", "c14", mode=1, lens=0x2222), J("ctor-empty", "c14", mode=1, lens=0x0000), J("hist-2-same", "c14", mode=0, L=2, lens=0x3033), J("hist-2-empty", "c14", mode=0, L=2, lens=0x1010),
          J("reconstruct", "c14", mode=2, covers=("accepted", "rejected", "end")), J("equality", "c14", mode=3),
          J("hist-3", "c14", mode=0, L=3, secs=600), J("t-hist-4", "c14", tiers="t", mode=0, L=4, secs=3400)],
    bounds={"quick": "every history of up to 3 operations (add/remove an element or a two-element set) over three arbitrary elements of 1, 2 and 5 (129, 130, 133; 3, 3, 3; 0, 1, 1) bytes, vectors of 0..4 possibly equal elements, arbitrary 32-byte encodings",
            "thorough": "histories of up to 4 operations (as far as an hour reaches)"},
    assumptions=["the ed25519 point group is modelled by an arbitrary abelian group ((Z/2^64)^4 on the encoding, with the real neutral encoding); hash-to-point and validity are uninterpreted"],
)
check("C15",
    harnesses={"c15": dict(src="c15.cpp")},
    jobs=[J("enc-%d-%d" % (a, b), "c15", mode=0, dir=0, lo=a, hi=b) for a, b in ((0, 8), (9, 16), (17, 32), (33, 64), (65, 100), (101, 125), (126, 131), (132, 160), (254, 258), (383, 386), (511, 514), (1023, 1026), (2047, 2050), (4095, 4097), (16384, 16385))] +
         [J("dec-%d-%d" % (a, b), "c15", mode=0, dir=1, lo=a, hi=b) for a, b in ((0, 8), (9, 16), (17, 32), (33, 64), (65, 100), (126, 131), (255, 257), (511, 513), (1023, 1025), (4096, 4097))] +
         [J("shift-%d" % s, "c15", mode=0, dir=0, lo=1, hi=50, shift=s) for s in (1, 8)] +
         [J("iface-%d-%d" % (a, b), "c15", mode=1, lo=a, hi=b) for a, b in ((0, 16), (17, 40))],
    bounds={"quick": "input lengths 0..160, 254..258, 383..386, 511..514, 1023..1026, 2047..2050, 4095..4097, 16384..16385 bytes (encryption first) and 0..100, 126..131, 255..257, 511..513, 1023..1025, 4096..4097 (decryption first), arbitrary 48-byte key and input", "thorough": "as quick"},
    assumptions=["the AES round function is an uninterpreted function"],
)
check("C21",
    harnesses={"c21": dict(src="c21.cpp")},
    jobs=[J("buf-0-70", "c21", mode=0, lo=0, hi=70), J("buf-254-258", "c21", mode=0, lo=254, hi=258), J("buf-71-253", "c21", mode=0, lo=71, hi=253), J("buf-512", "c21", mode=0, lo=511, hi=513), J("buf-1024", "c21", mode=0, lo=1023, hi=1025), J("buf-4k", "c21", mode=0, lo=4095, hi=4097), J("buf-64k", "c21", mode=0, lo=65535, hi=65537), J("buf-1M", "c21", mode=0, lo=1048577, hi=1048577), J("arr", "c21", mode=1)],
    bounds={"quick": "requests of 0..258, 511..513, 1023..1025, 4095..4097, 65535..65537, 1048577 bytes; arrays of 1..65 8-, 16-, 32- and 64-bit values", "thorough": "as quick"},
)
RC_ASSUME = ["ChaCha20 is an uninterpreted function of key, nonce and block counter"]
H6 = {"c06": dict(src="c06.cpp")}
check("C06",
    harnesses=H6,
    jobs=[J("full-%d" % nb, "c06", mode=0, h=2, h1=64, nb=nb) for nb in (16, 32)] +
         [J("con-h%d-%d" % (h, nb), "c06", mode=1, h=h, nb=nb) for h in (2, 3, 4, 5) for nb in (16, 32)] +
         [J("con-h6-16", "c06", mode=1, h=6)] +
         [J("nest-h4", "c06", mode=1, h=4, levels=2), J("nest3-h3", "c06", mode=1, h=3, levels=3)] +
         [J("win-h%d-%d" % (h, w), "c06", mode=1, h=h, W=6, where=w) for h in (12, 33, 63, 64) for w in range(5)] +
         [J("span-h%d" % h, "c06", mode=1, h=h, W=2, span=1) for h in (8, 64)] +
         [J("t-con-h7", "c06", tiers="t", mode=1, h=7, secs=3000), J("t-con-h6-32", "c06", tiers="t", mode=1, h=6, nb=32, secs=1500), J("t-nest-h5", "c06", tiers="t", mode=1, h=5, levels=2, secs=3000),
          J("t-nest3-h4", "c06", tiers="t", mode=1, h=4, levels=3, nb=32, secs=3000)] +
         [J("t-win-h%d-%d" % (h, w), "c06", tiers="t", mode=1, h=h, W=5, where=w, secs=1500) for h in range(9, 63) for w in (1, 2)],
    bounds={"quick": "full key: every height 2..64, every leaf; constrained keys: every range and leaf for heights 2..6, nested twice (height 4) and three times (height 3); heights 12, 33, 63, 64: every range inside five 6-leaf windows, and ranges spanning the tree",
            "thorough": "additionally height 7, nesting at heights 4 (three times) and 5, and windows at every height 9..62"},
    assumptions=RC_ASSUME)
check("C07",
    harnesses=H6,
    jobs=[J("reject-%d" % nb, "c06", mode=4, h=2, h1=64, nb=nb) for nb in (16, 32)] +
         [J("cov-h%d" % h, "c06", mode=2, h=h) for h in (2, 3, 4, 5)] + [J("cov-nest-h4", "c06", mode=2, h=4, levels=2), J("cov-32", "c06", mode=2, h=4, nb=32)] +
         [J("cov-h%d-%d" % (h, w), "c06", mode=2, h=h, W=4, where=w) for h in (33, 64) for w in range(3)] +
         [J("mat-h%d-%d" % (h, nb), "c06", mode=3, h=h, nb=nb) for h in (2, 3, 4, 5) for nb in (16, 32)] + [J("mat-nest-h4", "c06", mode=3, h=4, levels=2)] +
         [J("mat-h%d-%d" % (h, w), "c06", mode=3, h=h, W=5, where=w) for h in (12, 64) for w in range(3)] + [J("mat-span-h%d" % h, "c06", mode=3, h=h, W=2, span=1) for h in (8, 64)],
    bounds={"quick": 'every height 2..64 of the full key with arbitrary 64-bit requests; constrained keys: every range of heights 2..5 (nested once more at height 4) with arbitrary 64-bit outside requests, windows of 4..5 leaves at heights 12, 33, 64, ranges spanning trees of height 8 and 64; component contents for every range of heights 2..5', "thorough": 'as quick'},
    assumptions=RC_ASSUME)
check("C08",
    harnesses=H6,
    jobs=[J("full-h%d-%d" % (h, nb), "c06", mode=5, h=h, nb=nb) for h in (2, 3, 4, 5) for nb in (16, 32)] + [J("full-h6", "c06", mode=5, h=6), J("con-h5", "c06", mode=5, h=5, constrained=1), J("t-full-h7", "c06", tiers="t", mode=5, h=7, secs=1500)] +
         [J("con-h%d" % h, "c06", mode=5, h=h, constrained=1) for h in (2, 3, 4)] + [J("con2-h4", "c06", mode=5, h=4, constrained=2, nb=32)] +
         [J("full-h%d-%d" % (h, w), "c06", mode=5, h=h, W=5, where=w) for h in (12, 33, 63, 64) for w in range(5)] +
         [J("con-h%d-%d" % (h, w), "c06", mode=5, h=h, W=4, where=w, constrained=1) for h in (33, 64) for w in range(3)] +
         [J("reject", "c06", mode=4, h=2, h1=64), J("cov-h4", "c06", mode=2, h=4)],
    bounds={"quick": 'every range of heights 2..6 (full key), every range of every range for heights 2..5 (constrained), re-constrained at height 4; heights 12, 33, 63, 64: every range inside five 5-leaf windows', "thorough": 'as quick'},
    assumptions=RC_ASSUME)
H9 = {"c09": dict(src="c09.cpp")}
W_ASSUME = ["BLAKE2b, ChaCha20 and the AES round function are uninterpreted functions"]
W_TYPES = {0: "cipher", 1: "prf12", 2: "prf300", 3: "prg", 4: "prp", 5: "rc16", 6: "rc32", 7: "crc16", 8: "crc32"}
check("C09",
    harnesses=H9,
    jobs=[J("rt-%s" % n, "c09", mode=0, type=t) for t, n in W_TYPES.items()] + [J("rt-far-%d" % h, "c09", mode=0, type=t, h=h, far=1) for h, t in ((12, 7), (40, 8), (64, 7))] +
         [J("rt-rc-64", "c09", mode=0, type=5, hmax=64)],
    bounds={"quick": 'every key and IV; PRF sizes 12 and 300; full RC-PRF of heights 2..64; constrained RC-PRF of height 4 (every range) and four ranges at heights 12, 40, 64; wrapped twice', "thorough": 'as quick'},
    assumptions=W_ASSUME)
check("C10",
    harnesses=H9,
    jobs=[J("forged-%s-%d" % (W_TYPES[t], lo), "c09", mode=1, type=t, lo=lo, hi=hi, covers=("accepted", "rejected", "end")) for t, lo, hi in ((0, 1, 40), (1, 1, 40), (2, 31, 33), (3, 1, 40), (4, 108, 116), (5, 1, 40), (6, 33, 34), (7, 1, 56), (7, 71, 71), (8, 38, 55))] +
         [J("tampered-%s" % n, "c09", mode=2, type=t, h=3, hmax=3) for t, n in W_TYPES.items()] +
         [J("changed-%s" % n, "c09", mode=8, type=t, h=3, hmax=3) for t, n in W_TYPES.items() if t < 7] +
         [J("changed-%s-%d" % (W_TYPES[t], h), "c09", mode=8, type=t, h=h, far=1, oneleaf=1) for t, h in ((7, 4), (7, 12), (8, 6))] +
         [J("retagged-%s" % n, "c09", mode=6, type=t, h=3, hmax=3) for t, n in W_TYPES.items()] +
         [J("cross-%d" % a, "c09", mode=7, h=3, hmax=3, p0=a, p1=b) for a, b in ((0, 3), (4, 7), (8, 8), (9, 11), (12, 13))] + [J("otherkey-%d" % t, "c09", mode=7, otherkey=1, type=t) for t in (0, 3, 4)] +
         [J("short-%s" % W_TYPES[t], "c09", mode=3, type=t) for t in (0, 1, 3, 4, 5, 7)],
    bounds={"quick": 'arbitrary wrapped bytes with payloads of 1..40 (cipher, PRF, PRG), 108..116 (PRP), 1..40 (RC-PRF), 1..56, 71 (constrained RC-PRF) bytes; genuine wrapped objects with arbitrary byte changes, arbitrary other tags, wrapped by the library and changed in one byte, wrapped as 14 other type/size pairs or under another key; inputs of 0..28 bytes', "thorough": 'as quick'},
    assumptions=W_ASSUME)
check("C11",
    harnesses=H9,
    jobs=[J("payload-%s" % W_TYPES[t], "c09", mode=4, type=t, lo=1, hi=hi) for t, hi in ((0, 40), (1, 40), (3, 40), (4, 120), (5, 40))] +
         [J("payload-crc16-%d" % lo, "c09", mode=4, type=7, lo=lo, hi=hi) for lo, hi in ((1, 54), (55, 80))] +
         [J("payload-crc16-%d" % lo, "c09", mode=4, type=7, lo=lo, hi=hi, covers=("accepted", "end")) for lo, hi in ((37, 39), (53, 54), (70, 72), (87, 87), (104, 104))] +
         [J("eval-crc16-%d-h%d" % (n, h), "c09", mode=4, type=7, lo=n, hi=n, evalh=h, covers=("accepted", "end")) for n, h in ((38, 4), (54, 4), (71, 3), (87, 4), (104, 3))] +
         [J("truncated-%s" % n, "c09", mode=5, type=t, h=3) for t, n in W_TYPES.items()],
    bounds={"quick": 'arbitrary authenticated payloads of 1..40 bytes (cipher, PRF, PRG, RC-PRF), 1..120 (PRP), 1..80, 87, 104 bytes (constrained RC-PRF, up to three components, arbitrary heights, counts and ranges); evaluation of every leaf of accepted keys of heights 3 and 4; genuine payloads truncated or extended by up to 3 bytes', "thorough": 'as quick'},
    assumptions=W_ASSUME)
check("C12",
    harnesses={"c12": dict(src="c12.cpp")},
    jobs=[J(n, "c12", mode=m, lo=0, hi=12) for n, m in (("cipher", 0), ("prf", 1), ("hmac", 2), ("prg", 3), ("prp", 4))] +
         [J("%s-%d" % (n, k), "c12", mode=m, lo=k, hi=k + 1) for n, m in (("cipher", 0), ("prf", 1), ("hmac", 2), ("prg", 3), ("prp", 4)) for k in (128, 1024)] +
         [J("prg-64", "c12", mode=3, lo=62, hi=66), J("prp-33", "c12", mode=4, lo=30, hi=34)] +
         [J("rcprf-h%d" % h, "c12", mode=6, h=h) for h in (2, 3, 4)] + [J("wrapper-%d" % t, "c12", mode=7, type=t) for t in range(6)] + [J("key", "c12", mode=8)],
    bounds={"quick": "histories of construct, use (every interface), derive, move, misuse (null, empty and moved-from arguments, forged and short ciphertexts, tampered and malformed wrapped objects, throwing callbacks, failing key callbacks) and destroy for every keyed class, messages and outputs of 0..12, 128..129 and 1024..1025 bytes (30..34 for the PRP, 62..66 for the PRG), RC-PRF heights 2..4 with every range; after every step all live key blocks are inaccessible, and their number is the number of live keys", "thorough": "as quick"},
    assumptions=["sodium_malloc'd blocks carry a modelled protection state that every load, store and primitive call is checked against", "builds with memory locking (the default configuration)"])
check("C13",
    harnesses={"c12": dict(src="c12.cpp"), "c12n": dict(src="c12.cpp", lock=False)},
    jobs=[J("%s-%d" % (n, m), n, mode=m) for n in ("c12", "c12n") for m in range(10, 17)],
    bounds={"quick": "keys of 16, 32, 48 and 128 bytes with every content; six histories of moving, assigning (also over itself, over and from empty keys) and erasing; use of absent keys through every keyed class; consumption of the key by every constructor; moved and assigned objects of every keyed class; builds with and without memory locking", "thorough": "as quick"},
    assumptions=["BLAKE2b, SHA-512, ChaCha20, Poly1305 and the AES round function are uninterpreted functions"])
BN = ["mbedtls/bignum.c"]
H16 = {"c16": dict(src="c16.cpp", drop=BN, drop_native=BN)}
O16 = ["--no-merge", "--qfbv", "--inc-ms", "500"]
check("C16",
    harnesses=H16,
    jobs=[J("eval-inv-k%d" % i, "c16", mode=0, key=i, opts=O16) for i in range(8)] + [J("eval-big-k%d" % i, "c16", mode=0, key=i, big=200, opts=O16) for i in (0,)] + [J("eval-big2-k5", "c16", mode=0, key=5, big=100, opts=O16)] +
         [J("mult-k%d" % i, "c16", mode=1, key=i, lo=0, hi=20, opts=O16) for i in range(8)] + [J("mult-hi-%d" % s, "c16", mode=1, lo=1, hi=3, shift=s, plus=1, opts=O16) for s in (5, 7, 8, 12, 15, 16, 24, 30)] +
         [J("pool-k%d" % i, "c16", mode=2, key=i, opts=O16) for i in range(8)] + [J("sizes", "c16", mode=3, opts=O16)] + [J("copies-k%d" % i, "c16", mode=4, key=i, opts=O16) for i in range(8)] +
         [J("gen-k%d" % i, "c16", mode=5, key=i, opts=O16) for i in (0, 3)] + [J("keygen-%d" % e, "c16", mode=6, e=e) for e in (7, 11)] + [J("wrap-k%d" % i, "c16", mode=7, key=i, opts=O16) for i in (0, 1)] +
         [J("othersize-%d" % s, "c16", mode=8, scale=s, opts=O16) for s in (150, 256, 340, 343, 400, 700)],
    bounds={"quick": "eight keys with moduli of 6..8 bits scaled to 2048 bits (every kind of prime pair, exponents 3, 5, 7, 9, 11), every message; inversion orders 0..20 for every key and (1..3)*2^s+1 for s in 5, 7, 8, 12, 15, 16, 24, 30; pools of every supported size and every order; wrong message sizes, pool sizes and orders; copies, moves and re-imported keys; keys of other sizes (scales 150..700); wrapped and unwrapped inverses", "thorough": "as quick"},
    assumptions=["bignum.c is replaced by an exact small-integer model (harness/mpimodel.hpp); bignum.c itself is the subject of C17", "blinding values are drawn from 8 values, blinding exponents from 2 (first two draws)", "primes of key generation are fixed small ones"])

ONLY = ["mbedtls/bignum.c"]
O17 = ["--qfbv", "--inc-ms", "300"]
O17N = ["--qfbv", "--inc-ms", "300", "--no-merge"]
O17U = O17N + ["--uf-mul"]
O17D = ["--qfbv", "--inc-ms", "300", "--no-merge-at", "(clz|bitlen|shift_l|shift_r|mpi_copy)"]
O17E = O17 + ["--norm"]
H17 = {"c17": dict(src="c17.cpp", only=ONLY), "c17l": dict(src="c17.cpp", limb8=True)}
check("C17",
    harnesses=H17,
    jobs=[J("%s-%d%d" % (nm, a, b), "c17", op=op, na0=a, na1=a, nb0=b, nb1=b, al1=0, nx=0, sg1=3 if op < 2 and (a, b) == (3, 1) else 0, opts=O17) for nm, op in (("add", 0), ("sub", 1), ("subabs", 3)) for a, b in ((3, 1), (4, 1), (3, 2))] +
         [J("%s-%d" % (nm, al), "c17", op=op, al0=al, al1=al, nx=1 if al in (0, 3) else 0, opts=O17) for al in range(5) for nm, op in (("add", 0), ("sub", 1))] +
         [J("%s-%d" % (nm, al), "c17", op=op, al0=al, al1=al, sg1=0, nx=1 if al in (0, 3) else 0, opts=O17) for al in range(5) for nm, op in (("addabs", 2), ("subabs", 3))] +
         [J("cmp", "c17", op=4, al0=0, al1=0, nx=0, opts=O17), J("t-add-3", "c17", "t", 900, op=0, na1=3, nb1=3, al1=0, nx=0, opts=O17), J("t-sub-3", "c17", "t", 900, op=1, na1=3, nb1=3, al1=0, nx=0, opts=O17)] +
         [J("int-%d" % w, "c17", op=5, which=w, opts=O17) for w in range(3)] + [J("shl-0", "c17", op=6, na1=0)] + [J("shl-%d-%d" % (n, k), "c17", op=6, few=1, na0=n, na1=n, c0=k, c1=k + 3, opts=O17) for n in (1, 2) for k in (0, 4, 8, 12)] + [J("shr", "c17", op=7), J("swap", "c17", op=8, which=0, opts=O17), J("assign", "c17", op=8, which=1, opts=O17), J("copy", "c17", op=8, which=2, opts=O17), J("bits", "c17", op=9), J("bit", "c17", op=10),
          J("read", "c17", op=11), J("write", "c17", op=12), J("unset", "c17", op=18)] +
         [J("mulr-%d-%d" % (s, al), "c17", op=13, rows=1, na1=1, nb1=2, sg0=s, sg1=s, al0=al, al1=al, nx=1 if al in (0, 3) else 0, opts=O17U) for s, al in ((0, 0), (1, 1), (2, 2), (3, 3), (3, 4))] +
         [J("mulr-%d%d" % (a, b), "c17", op=13, rows=1, na0=a, na1=a, nb0=b, nb1=b, al1=0, nx=0, sg1=0, opts=O17U) for a, b in ((2, 1), (2, 2), (8, 1))] + [J("t-mulr-%d%d" % (a, b), "c17", "t", 900, op=13, rows=1, na0=a, na1=a, nb0=b, nb1=b, al1=0, nx=0, sg1=0, opts=O17U) for a, b in ((3, 3), (9, 1), (2, 8))] +
         [J("mulint", "c17", op=5, which=3, opts=O17U), J("mul8", "c17l", op=13, limb8=1, opts=O17U), J("mul8x-22", "c17l", op=13, limb8=1, na0=2, nb0=2, al1=0, nx=0, sg1=0, opts=O17N), J("mulint8", "c17l", op=5, which=3, limb8=1, opts=O17N)] + [J("div8-%d%d" % (a, b), "c17l", op=14, na0=a, na1=a, nb0=b, nb1=b, sg1=0, limb8=1, opts=O17N) for a, b in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0))] +
         [J("div8n-%d%d" % (a, b), "c17l", op=14, na0=a, na1=a, nb0=b, nb1=b, hi=2, lo=2, sg1=0, limb8=1, opts=O17D) for a, b in ((2, 1), (2, 2))] +
         [J("div8-by-%x" % v, "c17l", op=14, na0=3, na1=3, nb0=2, nb1=2, bval=v, sg1=0, limb8=1, opts=O17N) for v in (0x80ff, 0x8000, 0xffff, 0x7f80)] +
         [J("div8-alias-%d" % v, "c17l", op=14, na0=2, na1=2, nb0=n, nb1=n, bval=v, al1=8, hi=1, lo=2, limb8=1, opts=O17N) for n, v in ((1, 3), (1, 0x80), (2, 0x8001), (2, 0x01ff))] +
         [J("mod8-alias-%d" % v, "c17l", op=14, which=1, na0=2, na1=2, nb0=n, nb1=n, bval=v, al0=3, al1=5, hi=1, lo=2, limb8=1, opts=O17N) for n, v in ((1, 3), (1, 0x80), (2, 0x8001), (2, 0x01ff))] +
         [J("divint8-%d" % v, "c17l", op=14, which=2, na0=0, na1=2, bval=v, al1=1, hi=1, lo=2, limb8=1, opts=O17N) for v in (1, 3, 0x7f, 0x80, 0xff)] +
         [J("divint8-0", "c17l", op=14, which=2, na0=0, na1=1, limb8=1, sg1=1, opts=O17N),
          J("modint8-1", "c17l", op=14, which=3, na0=0, na1=1, limb8=1, sg1=1, opts=O17N), J("modint8-2", "c17l", op=14, which=3, na0=2, na1=2, limb8=1, sg1=1, hi=2, lo=2, opts=O17N)] +
         [J("exp8-%x-%x" % (m, e), "c17l", op=15, modulus=m, nb0=1 + (m > 255), nb1=1 + (m > 255), e0=e, e1=e, sg1=1, cache=0, ne=0, limb8=1, opts=O17E) for m, e in ((0xfb, 0), (0xfb, 1), (0xfb, 3), (0xfb, 5), (0x81, 2), (3, 3), (0x8001, 3), (0xfff1, 2), (0x101, 0x800001), (1, 1), (1, 0), (0xff, 0x55))] + [J("t-exp8-fb-d2a9b5", "c17l", "t", 900, op=15, modulus=0xfb, e0=0xd2a9b5, e1=0xd2a9b5, sg1=1, cache=0, ne=0, limb8=1, opts=O17E)] +
         [J("exp8-cache-%x" % m, "c17l", op=15, modulus=m, nb0=1 + (m > 255), nb1=1 + (m > 255), e0=3, e1=3, sg1=1, cache=1, ne=0, limb8=1, opts=O17E) for m in (0xfb, 0x101)] +
         [J("exp8-zero", "c17l", op=15, modulus=0xfb, na0=0, na1=0, e0=0, e1=3, sg1=1, cache=1, ne=1, limb8=1, opts=O17E)] +
         [J("gcd8-0", "c17l", op=16, na1=1, nb1=0, limb8=1, opts=O17E)] +
         [J("gcd8-%x-%d" % (v, s), "c17l", op=16, bval=v, nb0=1 + (v > 255), nb1=1 + (v > 255), al1=0, sg0=s, sg1=s, hi=3, lo=3, limb8=1, opts=O17N) for v, s in ((1, 0), (6, 0), (6, 3), (0x80, 1), (0xff, 2), (0x150, 0))] +
         [J("gcd8-alias-%x" % v, "c17l", op=16, bval=v, nb0=1 + (v > 255), nb1=1 + (v > 255), al0=1, al1=2, sg1=0, hi=1, lo=2, limb8=1, opts=O17N) for v in (12, 0x10c)] +
         [J("inv8-%x-%d" % (v, s), "c17l", op=17, bval=v, nb0=1 + (v > 255), nb1=1 + (v > 255), al1=0, sg0=s, sg1=s, hi=3, lo=3, limb8=1, opts=O17N) for v, s in ((2, 0), (3, 1), (0x80, 0), (0xfb, 1), (0x10f, 0), (7, 2))] +
         [J("inv8-alias-%x" % v, "c17l", op=17, bval=v, nb0=1 + (v > 255), nb1=1 + (v > 255), al0=1, al1=2, sg1=0, hi=1, lo=2, limb8=1, opts=O17N) for v in (11, 0x10f)],
    bounds={"quick": "64-bit limbs, all limb values: operands of 0 to 2 limbs (and 3 or 4 limbs with 1, 3 with 2) for addition, subtraction and comparison (all signs and aliasing patterns, result fresh or holding 4 limbs), 0 to 3 limbs and any integer for the *_int forms, right shifts by 0 to 200 bits, left shifts by 16 counts around limb boundaries, bit access, swaps and conditional assignment, import and export of 0 to 3 limbs, products up to 2x2 and 8x1 limbs (limb products uninterpreted). "
                     "8-bit limbs (same source): exact products up to 2x2 limbs; division and reduction: all operands of up to 1 limb, 2-limb operands with 4 free bits per limb, any 3-limb dividend by 4 literal 2-limb divisors, all aliasing with literal divisors; exponentiation of any one-limb base to 15 modulus/exponent pairs (1- and 2-limb moduli, exponents up to 24 bits, with and without cached R^2); gcd and inverse of a limb with 6 free bits against literal operands.",
            "thorough": "as quick, and addition/subtraction of 3 limbs, products 3x3, 9x1 and 2x8, a dense 24-bit exponent"},
    assumptions=["8-bit-limb encodings re-type the limb of the unchanged source (_BitInt(8)) with the portable multiplication kernel; a counterexample found there is only reported after one of 400 liftings of it to 64-bit limbs fails in the real build",
                 "where limb products are uninterpreted, only their arguments matter; the 64-bit product kernel (inline assembly) is interpreted instruction by instruction"])

H18 = {"c18": dict(src="c18.cpp", override=["mbedtls_rsa_check_privkey"], stub="accept_privkey.c")}
check("C18",
    harnesses=H18,
    jobs=[J("b64dec-%d" % n, "c18", op=1, n0=n, n1=n) for n in (7, 6, 5, 4)] + [J("b64dec-123", "c18", op=1, n1=3), J("b64enc", "c18", op=0, n1=10), J("len", "c18", op=2), J("int", "c18", op=4), J("strings", "c18", op=5), J("strings-long", "c18", op=5, n0=126, n1=129)] +
         [J("mpi-%d" % n, "c18", op=3, l0=n, l1=n) for n in (0, 1, 2, 3, 15, 16, 17, 32)] +
         [J("prvder-%d" % w, "c18", op=7, w0=w, w1=w) for w in range(8)] + [J("prvpem-%d" % w, "c18", op=10, w0=w, w1=w) for w in range(8)] +
         [J("pubder", "c18", op=6), J("pubpem", "c18", op=9)] + [J("pubder-%d" % n, "c18", op=6, w1=0, nn0=n, nn1=n, l0=1, mask=(1 << 64) - 1 if n == 3 else 0xff000000000000ff) for n in (3, 14, 15, 16, 17, 28, 32)] + [J("t-pubder-%d" % n, "c18", "t", 600, op=6, w1=0, nn0=n, nn1=n, l0=1) for n in (12, 13, 14, 15, 16, 17, 27, 28, 31, 32, 33)] +
         [J("prvder-long-%d" % n, "c18", op=7, w0=0, w1=0, nn0=n, nn1=n, mask=0xff000000000000ff) for n in (15, 16, 32)] + [J("t-b64dec-%d" % n, "c18", "t", 600, op=1, n0=n, n1=n) for n in (8, 9, 10, 12)] + [J("t-b64enc", "c18", "t", op=0, n0=11, n1=20)] + [J("t-pem-%d" % n, "c18", "t", 600, op=8, n0=n, n1=n + 24) for n in (101, 126, 151, 176)] + [J("t-mpi-%d" % n, "c18", "t", 600, op=3, l0=n, l1=n) for n in (4, 31, 33)] +
         [J("pem-%d" % n, "c18", op=8, n0=n, n1=n + 24) for n in (1, 26, 51, 76)] +
         [J("pubpem-%d" % n, "c18", op=9, nn0=n, nn1=n, l0=1) for n in (4, 32)] + [J("tdp-%d" % w, "c18", op=11, w0=w, w1=w, nn0=32, nn1=32, l0=1) for w in range(2)] + [J("tdpinv-%d" % w, "c18", op=12, w0=w, w1=w, nn0=32, nn1=32, l0=1) for w in (0, 1, 2, 5, 7)],
    bounds={"quick": "base64: all strings of up to 10 (encoding) and 7 (decoding, with every line-break position) bytes, every destination size; DER lengths: all values up to 2^32-1; DER integers: all values of up to 3 limbs, and of 15, 16, 17 and 32 limbs with arbitrary outer limbs; strings, OIDs and algorithm identifiers of 0 to 6 and 126 to 129 bytes; "
                     "DER and PEM keys: each component in turn arbitrary (0 or 1 limb; the modulus 2 or 3 limbs, or 14 to 32 limbs with arbitrary outer bytes), the others literal; exact, larger and several smaller buffers; PEM texts of 1 to 100 bytes with 2 arbitrary bytes; Tdp and TdpInverse key texts with 2048-bit moduli",
            "thorough": "as quick, and base64 decoding up to 12 bytes, encoding up to 20, PEM texts up to 200 bytes, 12- to 33-limb moduli with arbitrary outer limbs"},
    assumptions=["mbedtls_rsa_check_privkey (arithmetic consistency of a parsed private key) is replaced by a function that accepts every key, so that the component values can stay arbitrary"])

NM = ["--no-merge"]
H19 = {"c19": dict(src="c19.cpp", override=["mbedtls_rsa_check_privkey"], stub="any_privkey.c"), "c19r": dict(src="c19.cpp")}
check("C19",
    harnesses=H19,
    jobs=[J("b64-pre%d" % k, "c19", op=0, n0=k + 1, n1=k + 4, prefix=k, d0=k * 3 // 4 - 1, d1=k * 3 // 4 + 3, opts=NM, covers=("end",)) for k in (4, 8)] +
         [J("base64-%d" % n, "c19", op=0, n0=n, n1=n, d1=3, opts=NM) for n in (4, 3, 2, 1, 0)] + [J("t-base64-5", "c19", "t", 900, op=0, n0=5, n1=5, d1=4, opts=NM)] +
         [J("tmpl-%d-%d" % (w, i), "c19", op=4, which=w, i0=i, i1=i + 1, opts=NM) for w, m in ((1, 26), (2, 21), (0, 20)) for i in range(0, m, 2)] +
         [J("asn1-%d" % w, "c19", op=1, what=w, n1=7) for w in range(10)] + [J("t-asn1-%d" % w, "c19", "t", 600, op=1, what=w, n0=8, n1=12) for w in range(10)] +
         [J("anypub", "c19", op=2, n1=12, opts=NM), J("anyprv", "c19", op=3, n1=12, opts=NM), J("t-anypub", "c19", "t", 900, op=2, n0=13, n1=24, opts=NM), J("t-anyprv", "c19", "t", 900, op=3, n0=13, n1=20, opts=NM)] + [J("trunc-%d" % w, "c19", op=5, which=w) for w in range(3)] +
         [J("pempub-%d" % n, "c19", op=6, n0=n, n1=n, opts=NM) for n in range(6)] + [J("pemprv-%d" % n, "c19", op=7, n0=n, n1=n, t1=1, opts=NM) for n in range(5)] + [J("pemraw-%d" % n, "c19", op=6, raw=1, n0=n, n1=n, opts=NM) for n in (2, 3, 4)] +
         [J("t-pemprv-5", "c19", "t", 900, op=7, n0=5, n1=5, opts=NM), J("t-pempub-6", "c19", "t", 900, op=6, n0=6, n1=6, opts=NM)] +
         [J("freepub", "c19", op=8), J("freeprv", "c19", op=9), J("tdp", "c19", op=11), J("tdpinv", "c19", op=12), J("check", "c19r", op=13)],
    bounds={"quick": "base64: all texts of 0 to 4 bytes, and of 5 to 12 bytes with literal first group(s); ASN.1 elements: all inputs of 0 to 7 bytes; public and private DER keys: all inputs of 0 to 12 bytes; valid public, PKCS#1 and PKCS#8 keys with any two of their structure bytes (tags, lengths, version, first value bytes) replaced by arbitrary values, whole or one byte short; every prefix of them; PEM texts with up to 5 (public) or 4 (private) arbitrary bytes between header and footer and 2 after it, or the footer first; Tdp and TdpInverse on texts with up to 3 arbitrary bytes in 4 forms; the consistency check on private keys with small or empty components",
            "thorough": "as quick, and base64 texts of 5 bytes, ASN.1 inputs of up to 12, DER keys of up to 24 (public) and 20 (private), PEM bodies of 6 and 5 bytes"},
    assumptions=["except in the last group, mbedtls_rsa_check_privkey is replaced by a function that may accept or reject", "memory allocation succeeds"])
