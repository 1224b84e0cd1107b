ST=['U_STREAM']
PROP = dict(
 proofs=[
  dict(name='md5rev', file='sha.c', dfcc=False, unwind=66, fn=['jsi_MD5_byteReverse'], cost=5),
  dict(name='md5t', file='sha.c', dfcc=False, unwind=81, backend='cadical', fn=['jsi_MD5Transform'], cost=20),
  dict(name='sha1t', file='sha.c', backend='cadical', flags=['--no-undefined-shift-check','--no-signed-overflow-check'], dfcc=False, unwind=81, fn=['sha1_transform'], cost=20),
  dict(name='sha256t', file='sha.c', flags=['--no-undefined-shift-check','--no-signed-overflow-check'], dfcc=False, unwind=81, backend='cadical', fn=['sha256_transform'], cost=20),
  dict(name='sha3t', file='sha.c', dfcc=False, unwind=30, backend='cadical', fn=['SHA3_Transform','SHA3_Init'], cost=20),
  dict(name='sha256s', file='sha.c', defs=ST, dfcc=False, loops=True, unwind=66, swap={'sha256_transform':'spec_sha256_transform'}, fn=['sha256_init','sha256_update','sha256_final','jsi_Sha256Digest'], cost=40),
  dict(name='sha1s', file='sha.c', defs=ST, dfcc=False, loops=True, unwind=66, swap={'sha1_transform':'spec_sha1_transform'}, fn=['sha1_init','sha1_update','sha1_final','jsi_Sha1Digest'], cost=40),
  dict(name='md5s', file='sha.c', backend='cadical', defs=ST+['U_DSTMAX=64','U_DG16'], dfcc=False, loops=True, unwind=66, swap={'jsi_MD5Transform':'spec_md5_transform','jsi_MD5_byteReverse':'spec_md5_rev','memcpy':'spec_memcpy'}, fn=['jsi_MD5Init','jsi_MD5Update','jsi_MD5_byteReverse','MD5Final','jsi_Md5Digest'], cost=40),
 ]+[dict(name='sha3s%d'%t, backend='cadical', entry='h_sha3s', file='sha.c', defs=ST+['JSV_UNIT_sha3s','U_TYPE=%d'%t,'U_DSTMAX=144'], dfcc=False, unwind=146, swap={'SHA3_Transform':'spec_sha3_transform','memcpy':'spec_memcpy'}, fn=['SHA3_Update','SHA3_Final','jsi_Sha3Digest','jsi_CryptoHash'], cost=40) for t in range(4)]+[
  dict(name='hashsel', file='sha.c', dfcc=False, swap={'jsi_Sha1Digest':'s_sha1','jsi_Sha256Digest':'s_sha256','jsi_Md5Digest':'s_md5'}, fn=['jsi_CryptoHash'], cost=5),
 ],
 native=[dict(name='n_hash', file='n_hash.c', fn=['SysHashCmd','Jsi_CryptoHash','jsi_ToHexStr'])],
)
PROP['assumptions']=['message length at most 2^28 bytes','memcpy replaced by its contract in the MD5 and SHA-3 streaming units (destination arbitrary except at the witness byte)',
 'induction over rounds/blocks by cut points: at the end of a round the ghost code replaces the state by an arbitrary one (proved for every state)','jsi_MD5_byteReverse identity on a little-endian machine (proved, unit md5rev)']
META = dict(
 title='Hash digests equal MD5, SHA-1, SHA-256 and SHA-3 for every message',
 statement='For every message of any length and content, the digest reported for each selectable algorithm (MD5, SHA-1, SHA-256, SHA3-224/256/384/512) is exactly the digest the published standard defines, with the length that algorithm defines, in hexadecimal or raw form.',
 quant='all byte strings of every length and all seven algorithms',
 why='tests hash a couple of short strings with the default algorithm; block boundaries, padding cases and later rounds depend on lengths and contents no test reaches.',
 files=['src/jsiCrypto.c','src/jsiCmds.c'], mech=[('compression functions','src/jsiCrypto.c'),('init/update/final buffering and padding','src/jsiCrypto.c'),('Jsi_CryptoHash dispatch','src/jsiCrypto.c'),('Util.hash command','src/jsiCmds.c')],
 note='Proved: every round of all four compression functions equals the standard for every state and block; for every message up to 2^28 bytes the sequence of compressed blocks is the padded message of the standard (arbitrary witness byte) and the digest is the final chaining value. Trusted: CBMC, memcpy contract. Hex formatting, proof-of-work option and script wrapper are executed only (bounded).',
)
