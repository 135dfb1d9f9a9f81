"""What each check runs. quick: every run without tier; thorough: those with tier 'thorough' as well."""
CHECKS = {}
def R(name, harness, *defs, **kw): return dict(name=name, harness=harness, defs=list(defs), **kw)

CHECKS['C01'] = dict(runs=[R('case%d' % c, 'buffer.c', 'CASE=%d' % c, paths=c != 2, bounds='buffers up to 3 bytes, all 64-bit offsets/lengths') for c in (1, 2, 3, 4)] +
                          [R('case%d_n5' % c, 'buffer.c', 'CASE=%d' % c, "N=5", tier="thorough", bounds="buffers up to 5 bytes") for c in (1, 3, 4)])
def codec(kind, case, l, **kw): return R('%s_%s_%d' % (('hex', 'b64', 'b32')[kind - 1], ('roundtrip', 'any')[case - 1], l), 'codec.c', 'KIND=%d' % kind, 'CASE=%d' % case, 'L=%d' % l, paths=False, unwind=l + 4 if case == 2 and kind < 3 else 67, bounds='%d arbitrary bytes' % l, **kw)
CHECKS['C02'] = dict(runs=[codec(k, 1, l) for k in (1, 2, 3) for l in (1, 2, 3, 4, 5)] + [codec(k, 2, l) for k in (1, 2, 3) for l in (0, 1, 2, 3, 4, 5)] +
                          [codec(k, c, l, tier='thorough') for k in (1, 2, 3) for c in (1, 2) for l in (6, 7, 8, 9, 10)])
CHECKS['C03'] = dict(runs=[R('roundtrip', 'cipher_codec.c', 'CASE=1', bounds='ciphertext 0..3 bytes'), R('construct', 'cipher_codec.c', 'CASE=2'),
    R('any_short', 'cipher_codec.c', 'CASE=3', 'LO=0', 'HI=3', bounds='0..3 arbitrary bytes'), R('any_ctr', 'cipher_codec.c', 'CASE=3', 'LO=15', 'HI=19', bounds='15..19 arbitrary bytes'), R('any_gcm', 'cipher_codec.c', 'CASE=3', 'LO=27', 'HI=35', bounds='27..35 arbitrary bytes'),
    R('any_mid', 'cipher_codec.c', 'CASE=3', 'LO=4', 'HI=26', tier='thorough'), R('any_long', 'cipher_codec.c', 'CASE=3', 'LO=36', 'HI=64', tier='thorough')])
CHECKS['C04'] = dict(runs=[R('sig_%d' % n, 'sig_codec.c', 'CASE=1', 'LEN=%d' % n, bounds='signature values of %d bytes' % n) for n in (1, 2, 137, 138, 139, 140, 141, 142, 143)] +
    [R('any_%d' % n, 'sig_codec.c', 'CASE=2', 'LEN=%d' % n, paths=False, unwind=300, bounds='%d arbitrary bytes' % n) for n in (0, 1, 2, 3, 4, 6)] +
    [R('pub_%d' % n, 'sig_codec.c', 'CASE=3', 'LEN=%d' % n) for n in (1, 2, 67, 133, 134, 135, 140)] +
    [R('sig_%d' % n, 'sig_codec.c', 'CASE=1', 'LEN=%d' % n, tier='thorough') for n in range(3, 137, 12)])
CHECKS['C05'] = dict(runs=[R('own', 'array.c', 'OWN=1', 'FAIL=0', 'STEPS=3', paths=False, unwind=12), R('own_fail', 'array.c', 'OWN=1', 'FAIL=4', 'STEPS=3', paths=False, unwind=12), R('full_fail', 'array.c', 'OWN=1', 'FAIL=4', 'SZ=4', 'PREFILL=4', 'STEPS=1', paths=False, unwind=12), R('borrow', 'array.c', 'OWN=0', 'FAIL=0', paths=False, unwind=12), R('own4', 'array.c', 'OWN=1', 'FAIL=5', 'STEPS=5', paths=False, unwind=12, tier='thorough')])
CHECKS['C06'] = dict(runs=[R('chain', 'id_cache.c', 'STEPS=2'), R('chain_copy', 'id_cache.c', 'STEPS=2', 'COPY'), R('chain3', 'id_cache.c', 'STEPS=3', tier='thorough')])
def N(*d): return R('node_' + '_'.join(x.lower().replace('=', '') for x in d), 'node_cache.c', *d)
CHECKS['C07'] = dict(runs=[N('EDIT'), N('EDIT', 'COPY'), N('EDIT', 'REVALIDATE'), N('ROTATE=1'), N('ROTATE=2'), N('SWAPCHAIN'), N('SWAPCHAIN', 'REVALIDATE'), N('SWAPCHAIN', 'ROTATE=1')])
CHECKS['C10'] = dict(runs=[R('e2e_v%d' % v, 'e2e.c', 'VERSION=%d' % v, 'VF_POISON') for v in (2, 3, 4)] + [R('alien_%d' % a, 'e2e.c', 'ALIEN=%d' % a, 'VF_POISON', bounds='a stranger whose identifier is a prefix, an extension, or any change of that of a recipient') for a in (1, 2, 3, 4, 5)] +
    [R('find_%d' % n, 'kxfind.c', 'NEX=%d' % n, models=['engine'], paths=False, unwind=20, bounds='%d exchanges with identifiers of 1..3 arbitrary bytes' % n) for n in (1, 2, 3)])

def S(scen, ppe, n, smax, first=1, **kw): return R('stream%d_ppe%d_n%d_f%d' % (scen, ppe, n, first), 'stream.c', 'SCEN=%d' % scen, 'PPE=%d' % ppe, 'NPKT=%d' % n, 'SMAX=%d' % smax, 'FIRST=%d' % first, 'VF_POISON', bounds='%d packets, first number %d, then numbers up to %d, %d packets per evolution, contents symbolic' % (n, first, smax, ppe), **kw)
def SB(d, ppe, evos, **kw): return R('%s_ppe%d' % (('enc', 'dec')[d], ppe), 'stream_big.c', 'DIR=%d' % d, 'PPE=%d' % ppe, 'EVOS=%d' % evos, models=[], paths=False, unwind=5, bounds='any 64-bit history and sequence number at most %d evolutions apart, %d packets per evolution' % (evos, ppe), **kw)
CHECKS['C13'] = dict(runs=[S(2, 2, 1, 4), S(2, 2, 1, 4, 2), S(2, 1, 1, 4), S(3, 2, 2, 4), SB(0, 512, 2), SB(1, 512, 2), SB(1, 1, 2)] + [S(2, p, 2, 4, f, tier='thorough') for p in (1, 2, 3) for f in (1, 2)])
CHECKS['C14'] = dict(runs=[S(1, p, 2, 4, f) for p, f in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3))] + [S(3, 1, 2, 4), SB(0, 1, 3), SB(0, 32768, 3), SB(1, 512, 3), SB(0, 512, 8, tier='thorough')] + [S(1, p, 3, 5, f, tier='thorough') for p in (1, 2, 3, 4) for f in (0, 1, 2, 3)])
def SK(c, *d, **kw): return R('key%d_%s' % (c, '_'.join(x.lower().replace('=', '') for x in d)), 'stream_key.c', 'CASE=%d' % c, *d, models=['engine', 'pb'], paths=False, unwind=70, **kw)
CHECKS['C15'] = dict(runs=[SK(1), SK(1, 'EK=1', 'UD=1')] + [SK(2, 'CK=%d' % k, bounds='any message, cipher key field of %d bytes' % k) for k in (0, 1, 2, 32, 33, 34)] + [SK(2, 'EK=0'), SK(2, 'UD=0')] + [SK(3, bounds='a stored message with any rate, keys and user data')])
CHECKS['C25'] = dict(runs=[R('derive', 'devinfo.c', 'VF_POISON', bounds='system identifiers of 2 bytes'), R('derive4', 'devinfo.c', 'LEN=4', 'VF_POISON'), R('faults', 'devinfo.c', 'FAULTS', bounds='every engine call may fail')])
CHECKS['C24'] = dict(runs=[R('gen', 'fingerprint.c', 'PART=1', 'VF_POISON'), R('gen_max', 'fingerprint.c', 'PART=1', 'KLEN=134', 'VF_POISON'), R('gen_faults', 'fingerprint.c', 'PART=1', 'FAULTS')] +
   [R('pair_%d' % n, 'fingerprint.c', 'PART=2', 'FL=%d' % n, 'VF_POISON', bounds='fingerprints of %d bytes' % n) for n in (1, 2)] + [R('pair_4', 'fingerprint.c', 'PART=2', 'FL=4', 'VF_POISON', tier='thorough')] + [R('full_%d' % n, 'fingerprint.c', 'PART=4', 'FL=%d' % n, paths=False, unwind=66, models=['engine'], bounds='pairs of fingerprints of %d bytes' % n) for n in (8, 16)] + [R('text_%d' % n, 'fingerprint.c', 'PART=3', 'FL=%d' % n, paths=False, unwind=70, models=['engine'], bounds='text of fingerprints of %d bytes' % n) for n in (1, 2, 5, 8)] + [R('pair_faults', 'fingerprint.c', 'PART=2', 'FL=2', 'FAULTS')])
CHECKS['C30'] = dict(runs=[R('stored', 'kdf.c', 'CASE=1')] + [R('any_%d' % n, 'kdf.c', 'CASE=2', 'LEN=%d' % n, paths=False, unwind=26, bounds='%d arbitrary bytes' % n) for n in (0, 1, 2, 16, 17, 22, 23, 24)] +
   [R('perform_%d' % a, 'kdf.c', 'CASE=3', 'ALGO=%d' % a, 'VF_POISON') for a in (0, 3, 4, 5, 6, 7)] + [R('faults_%d' % a, 'kdf.c', 'CASE=3', 'ALGO=%d' % a, 'FAULTS') for a in (0, 4, 5)])

def TP(name, *d, **kw): return R(name, 'tpacket.c', *d, 'VF_POISON', models=[], unwind=kw.pop('unwind', 170), **kw)
CHECKS['C16'] = dict(runs=[TP('roundtrip_b%d_m%d' % (b, m), 'CASE=1', 'BL=%d' % b, 'MAC=%d' % m, bounds='bodies of %d bytes, any header' % b) for b, m in ((1, 0), (2, 1), (7, 0))] +
   [TP('any_%d' % n, 'CASE=2', 'LEN=%d' % n, paths=False, unwind=70, bounds='%d arbitrary bytes' % n) for n in (0, 1, 2, 8, 9, 10, 11, 14)] +
   [TP('any_signed%d_%d' % (t, n), 'CASE=2', 'LEN=%d' % n, 'FIRST=%d' % (t * 16 + 2), bounds='%d arbitrary bytes with the type of a signed packet' % n) for t, n in ((0, 2), (0, 143), (0, 152), (0, 153), (0, 154), (1, 151), (1, 152), (1, 153), (1, 155))])
def TV(h, g, p, w, *d): return TP('verify_' + '_'.join(map(str, (h, g, p, w) + d)), 'CASE=3', 'HS=%d' % h, 'GOOD=%d' % g, 'PRE=%d' % p, 'WHERE=%d' % w, *d, bounds='bodies of 2 bytes, any header; changed byte anywhere in header and body, in the signature header, or in the signature value')
CHECKS['C17'] = dict(runs=[TV(0, 1, 0, 0), TV(1, 1, 0, 0), TV(0, 1, 1, 1), TV(1, 1, 1, 2), TV(0, 1, 0, 3), TV(1, 1, 0, 4), TV(0, 0, 0, 0), TV(1, 0, 1, 0), TV(0, 1, 0, 0, 'RESIGN'), TV(1, 1, 0, 0, 'RESIGN')])
def ED(name, *d, **kw): return R(name, 'ecdh.c', *d, 'VF_POISON', **kw)
CHECKS['C29'] = dict(runs=[ED('gcm512'), ED('gcm256', 'HALGO=KDF_HKDF_SHA256', 'NOSALT'), ED('gcm384', 'HALGO=KDF_HKDF_SHA384', 'NOINFO'), ED('ctr512', 'CTR'), ED('faults', 'FAULTS', bounds='every engine call may fail')])
def HS(name, *d, **kw): return R(name, 'handshake.c', *d, 'VF_POISON', **kw)
CHECKS['C18'] = dict(runs=[HS('plain'), HS('pin_i', 'PIN_I=1'), HS('pin_r', 'PIN_R=1'), HS('pin_both', 'PIN_I=1', 'PIN_R=1'), HS('copy', 'COPY', 'PIN_I=1')])
def HA(n, *d, **kw): return HS('attack%d%s' % (n, ''.join('_' + x.lower().replace('=', '') for x in d)), 'ATTACK=%d' % n, *d, **kw)
CHECKS['C19'] = dict(runs=[HA(1, 'AT=0', 'POS=0'), HA(1, 'AT=0', 'POS=1'), HA(1, 'AT=0', 'POS=5'), HA(1, 'AT=1'), HA(1, 'AT=3', 'PIN_R=1'), HA(3), HA(3, 'PIN_R=1'), HA(4), HA(4, 'PIN_I=1'), HA(5, 'PIN_I=1'), HA(6, 'PIN_R=1'), HA(7), HA(8), HA(8, 'UNSIGNED'), HA(8, 'PIN_R=1'), HA(9), HA(10), HA(11)] +
    [HA(12, 'AT=0', 'POS=0'), HA(12, 'AT=0', 'POS=1'), HA(12, 'AT=0', 'POS=9'), HA(12, 'AT=1', 'PIN_I=1'), HA(12, 'AT=2'), HA(12, 'AT=3'), HA(12, 'AT=3', 'PIN_I=1'), HA(13), HA(13, 'PIN_I=1'), HA(14), HA(15), HA(15, 'PIN_I=1'), HA(16), HA(17), HA(18, 'PIN_I=1')])
def HY(name, *d, **kw): return R(name, 'handshake_any.c', *d, models=['pb'], paths=False, unwind=160, drop=['openssl_suite.c', 'openssl_file_suite.c', 'crypto_engine.c'], **kw)
CHECKS['C19']['runs'] += [HY('any_r%d%d' % (i, p), 'INIT=%d' % i, 'PIN=%d' % p, **({} if p else dict(tier='thorough'))) for i in (0, 1) for p in (0, 1)]

def HF(n, p): return R('handshake_p%d_pin%d' % (n, p), 'handshake_fault.c', 'PHASE=%d' % n, 'PIN=%d' % p, 'VF_POISON', bounds='any engine call may fail in step %d' % n, **({'tier': 'thorough'} if p else {}))
CHECKS['C33'] = dict(runs=[HF(n, p) for n in (1, 2, 3, 4) for p in (0, 1)])
def TC(n, *d, **kw): return R('s%d%s' % (n, ''.join('_' + x.lower().replace('=', '') for x in d)), 'transport.c', 'SCEN=%d' % n, *d, 'VF_POISON', **kw)
BP = ('PIN_A=1', 'PIN_B=1')
TH = dict(tier='thorough')
CHECKS['C20'] = dict(runs=[TC(0), TC(0, *BP, **TH), TC(0, 'SYNC=1', **TH), TC(1), TC(1, *BP, **TH)] + [TC(2, 'POS=%d' % p, *BP, **({} if p in (0, 11, -1) else TH)) for p in (0, 9, 10, 11, 25, -1)] +
    [TC(n, *BP) for n in (3, 4, 5, 6)] + [TC(7, 'POS=0'), TC(7, 'POS=1'), TC(8, 'POS=0'), TC(8, 'POS=1'), TC(9)] + [TC(10, 'POS=%d' % p) for p in (0, 1, 2, 3)] + [TC(11, 'POS=%d' % p, **({} if p in (0, 4) else TH)) for p in (0, 1, 2, 3, 4)] +
    [TC(12, 'POS=%d' % p, *BP, **({} if p in (0, 2) else TH)) for p in (0, 1, 2, 3, 4)] + [TC(13, 'POS=0', **TH), TC(13, 'POS=1')])
CHECKS['C33']['runs'] += [TC(14, 'POS=%d' % p) for p in (0, 2, 4, 5, 6)] + [TC(14, 'POS=%d' % p, **TH) for p in (1, 3)] + [TC(14, 'POS=%d' % p, *BP, **TH) for p in (1, 3)]

def PK(name, *d, **kw): return R(name, 'packet.c', *d, 'VF_POISON', models=[], unwind=kw.pop('unwind', 170), **kw)
CHECKS['C08'] = dict(runs=[PK('packet_c%d_s%d' % (c, s), 'CASE=1', 'CL=%d' % c, 'SL=%d' % s, bounds='content of %d bytes, signature value of %d bytes, versions 0..5' % (c, s)) for c, s in ((1, 1), (5, 139), (2, 141))] +
    [PK('any_%d' % n, 'CASE=2', 'LEN=%d' % n, paths=False, unwind=20, bounds='%d arbitrary bytes' % n) for n in (0, 1, 2, 3, 10)] +
    [PK('any_v%d_t%d_%d_%d' % (v, t, n, lo), 'CASE=2', 'LEN=%d' % n, 'VER=%d' % v, 'TYPE=%d' % t, 'LO=%d' % lo, 'HI=%d' % hi, bounds='%d bytes, version byte %d, type byte %d, padding counts %d..%d' % (n, v, t, lo, hi), **kw)
      for v, t, n, kw in ((4, 0, 147, {}), (2, 0x70, 146, {}), (3, 0, 148, dict(tier='thorough')), (3, 0x70, 146, {}), (4, 1, 147, {}), (5, 0, 147, {}), (1, 0, 147, {}), (4, 0, 145, {})) for lo, hi in ((0, 5), (137, 144), (253, 255))] +
    [PK('any_v4_t0_147_%d' % lo, 'CASE=2', 'LEN=147', 'VER=4', 'TYPE=0', 'LO=%d' % lo, 'HI=%d' % (lo + 32), tier='thorough') for lo in (6, 39, 72, 105)] +
    [R('payload_b%d_t%d_f%d' % (b, t, f), 'inner.c', 'CASE=1', 'FORM=%d' % f, 'BODY=%d' % b, 'TAG=%d' % t, 'VF_POISON', bounds='body of %d, channel tag of %d bytes, all other fields' % (b, t)) for b, t, f in ((3, 2, 0), (1, 5, 0), (3, 2, 1), (3, 2, 2), (2, 1, 3))] +
    [R('exchanges_%d_f%d' % (n, f), 'inner.c', 'CASE=2', 'FORM=%d' % f, 'NEX=%d' % n, 'VF_POISON', bounds='%d exchanges, all field contents' % n) for n, f in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 2), (2, 3))])
def PA(n, *d, **kw): return R('m%d%s' % (n, ''.join('_' + x.lower().replace('=', '') for x in d)), 'parse.c', 'MODE=%d' % n, *d, 'VF_POISON', **kw)
CHECKS['C09'] = dict(runs=[PA(1, 'POS=0'), PA(1, 'POS=1'), PA(1, 'POS=3'), PA(2, 'POS=0'), PA(2, 'POS=3'), PA(3), PA(4)] + [PA(5, 'VERSION=%d' % a, 'POS=%d' % b) for a, b in ((2, 3), (3, 4), (4, 2), (3, 2), (4, 3))] + [PA(n) for n in (6, 7, 8, 9, 10)] + [PA(7, 'VERSION=2'), PA(9, 'VERSION=3')])
def RC(n, *d, **kw): return R('n%d%s' % (n, ''.join('_' + x.lower().replace('=', '') for x in d)), 'recip.c', 'NREC=%d' % n, *d, 'VF_POISON', **kw)
CHECKS['C12'] = dict(runs=[RC(1)] + [RC(1, 'VERSION=%d' % v, **({} if v in (2, 4) else TH)) for v in (0, 1, 2, 4, 5, 255)] + [RC(1, 'VERSION=4', 'BAD=0', 'HOW=0', 'SB=%d' % b) for b in (1, 3)] + [RC(2, 'VERSION=4'), RC(3, 'VERSION=3'), RC(0, 'VERSION=4'), RC(2, 'VERSION=4', 'HOLE=0'), RC(2, 'VERSION=4', 'HOLE=1')] + [RC(1, 'VERSION=4', 'BAD=0', 'HOW=%d' % h) for h in range(6)] +
    [RC(2, 'VERSION=%d' % v, 'BAD=%d' % b, 'HOW=%d' % h) for v, b, h in ((4, 0, 0), (4, 1, 0), (4, 1, 3), (2, 1, 2), (3, 0, 5))] + [RC(3, 'VERSION=4', 'BAD=%d' % b, 'HOW=%d' % h) for b, h in ((0, 3), (1, 2), (2, 4), (2, 0))])
def KX(v, s, *d, **kw): return R('v%d_sub%d%s' % (v, s, ''.join('_' + x.lower() for x in d)), 'kex.c', 'VERSION=%d' % v, 'SUB=%d' % s, *d, 'VF_POISON', **kw)
CHECKS['C11'] = dict(runs=[KX(v, s) for v in (2, 3, 4) for s in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10)] + [KX(4, s, 'PSK') for s in (0, 8, 9)] + [KX(2, 9, 'PSK')] + [KX(4, s) for s in (9, 11, 12, 14, 15)] + [KX(v, 0) for v in (0, 1, 5, 6, 255)])
CHECKS['C11']['runs'] += [RC(n, 'VERSION=%d' % v, 'TWICE') for n, v in ((1, 2), (1, 3), (2, 4))]

def PB(name, what, *d, **kw): return R(name, 'pbany.c', 'WHAT=%d' % what, *d, models=['pb'], paths=False, unwind=kw.pop('unwind', 160), drop=['openssl_suite.c', 'openssl_file_suite.c', 'crypto_engine.c'], **kw)
CHECKS['C34'] = dict(runs=[PB('identity_s%d' % s, 1, 'SIGL=%d' % s) for s in (1, 3)] + [PB('chain_u%d' % u, 2, 'USE=%d' % u) for u in (0, 1, 2)] + [PB('node_u%d' % u, 3, 'USE=%d' % u, **(TH if u == 1 else {})) for u in (0, 1, 2)] + [PB('keypair', 4)] +
    [PB('root_keys_%d' % k, 5, 'CK=%d' % k) for k in (1, 32, 33, 34)] + [PB('storage_keys_%d_u%d' % (k, u), 6, 'CK=%d' % k, 'USE=%d' % u, **({} if (k, u) in ((33, 1), (32, 1), (33, 2)) else TH)) for k in (1, 32, 33, 34) for u in (1, 2)] + [PB('payload', 7)] + [PB('ctx_u%d' % u, 9, 'USE=%d' % u, **TH) for u in (0, 1)])
CHECKS['C34']['runs'].sort(key=lambda r: not r['name'].startswith(('node', 'storage_keys_33_u2', 'chain', 'ctx'))) # longest first

def EX(o, n, *d, **kw): return R('obj%d_s%d%s' % (o, n, ''.join('_' + x.lower().replace('=', '').replace('(', '') for x in d)), 'export.c', 'OBJ=%d' % o, 'SCEN=%d' % n, *d, 'VF_POISON', **kw)
CHECKS['C21'] = dict(runs=[EX(o, 0) for o in (1, 2, 3, 4)] + [EX(1, 0, 'ALG=KDF_SCRYPT_2_20')] + [EX(1, 1, 'POS=%d' % p) for p in (0, 1, 16, 17, 18, 30, 45, 46, -1)] + [EX(o, 1, 'POS=-1') for o in (2, 3, 4)] + [EX(1, 2), EX(4, 2)] +
    [EX(o, 3) for o in (1, 2, 3)] + [EX(4, 3)] + [EX(o, 4) for o in (1, 2, 3)] + [EX(4, 4)] + [EX(1, 5, 'ALG=KDF_BCRYPT_15'), EX(1, 5, 'ALG=KDF_HKDF_SHA256'), EX(1, 5, 'CIPH=CIPHER_AES256_CTR')])
def ST(o, *d, **kw): return R('obj%d%s' % (o, ''.join('_' + x.lower().replace('=', '') for x in d)), 'stored.c', 'OBJ=%d' % o, *d, 'VF_POISON', **kw)
CHECKS['C22'] = dict(runs=[ST(1)] + [ST(1, 'TAMPER', 'POS=%d' % p) for p in (0, 1, 13, 29, -1)] + [ST(2), ST(3)] + [ST(4, 'NODE=%d' % n, 'PRI=0') for n in (0, 1)] + [ST(5, 'PRI=0'), ST(5, 'PRI=1'), ST(6, 'KEY=0'), ST(6, 'KEY=1'), ST(7)] +
    [ST(8, 'REMOTE=%d' % r, 'POS=%d' % p) for r, p in ((0, 0), (1, 1), (0, 2))] + [ST(9, 'PASS=0'), ST(9, 'PASS=1'), ST(10), ST(11)])
CHECKS['C33']['runs'] += [ST(0, 'STEP=1', 'FAULTS'), ST(1, 'FAULTS'), ST(3, 'FAULTS'), ST(5, 'PRI=1', 'FAULTS'), ST(6, 'KEY=1', 'FAULTS'), ST(8, 'REMOTE=0', 'FAULTS'), ST(9, 'PASS=0', 'FAULTS'), ST(9, 'PASS=1', 'FAULTS'), ST(10, 'FAULTS'), ST(11, 'FAULTS')]
CHECKS['C32'] = dict(runs=[R('kind%d_opt%d' % (k, o), 'copies.c', 'KIND=%d' % k, 'OPT=%d' % o, 'VF_POISON', models=['engine']) for k in range(1, 19) for o in range(4)])
CHECKS['C21']['runs'].sort(key=lambda r: r['name'] != 'obj1_s1_pos0')
CHECKS['C11']['runs'] += [KX(4, n, 'OWN') for n in (0, 1, 2, 3, 11)] + [KX(3, 1, 'OWN'), KX(2, 1, 'OWN')]
CHECKS['C14']['runs'] += [R('bad%d_ppe%d_f%d_s%d' % (b, p, f, st), 'stream.c', 'SCEN=4', 'PPE=%d' % p, 'NPKT=3', 'SMAX=%d' % (f + 2 * st), 'FIRST=%d' % f, 'STEP=%d' % st, 'BAD=%d' % b, 'VF_POISON', bounds='three packets, one of them changed, %d packets per evolution, first number %d, step %d' % (p, f, st)) for b, p, f, st in ((1, 2, 1, 1), (0, 1, 1, 1), (1, 1, 1, 2))]
CHECKS['C12']['runs'] += [RC(1, 'VERSION=4', 'BAD=0', 'HOW=%d' % h, 'SEEN') for h in (0, 2, 3, 4)] + [RC(2, 'VERSION=4', 'BAD=1', 'HOW=2', 'SEEN')]
CHECKS['C33']['runs'] = [RC(1, 'VERSION=4', 'FAULTS'), PA(11), PA(12)] + CHECKS['C33']['runs']
