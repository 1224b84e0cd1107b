F=['--no-undefined-shift-check','--no-signed-overflow-check']
SW={'Jsi_DSValue':'g_DSValue','Jsi_DSLength':'g_DSLength','Jsi_DSAppendLen':'g_DSAppendLen','Jsi_DSSetLength':'g_DSSetLength','jsi_Sha256Digest':'g_sha256','jsi_btea':'g_btea'}
PROP = dict(
 proofs=[
  dict(name='enc', file='tea.c', dfcc=False, unwind=9, backend='cadical', fn=['jsi_btea (encode)'], cost=20, flags=F),
  dict(name='dec', file='tea.c', dfcc=False, unwind=9, backend='cadical', fn=['jsi_btea (decode)'], cost=20, flags=F),
  dict(name='stepinv', file='tea.c', dfcc=False, unwind=9, backend='cadical', fn=[], cost=20, flags=F),
  dict(name='short', file='tea.c', dfcc=False, unwind=3, fn=['jsi_btea'], cost=5),
  dict(name='wrap', file='tea.c', defs=['U_LOG'], dfcc=False, unwind=5, backend='cadical', swap=SW, fn=['Jsi_Encrypt'], cost=20, havoc=['Jsi_LogMsg','jsi_msgHelp']),
  dict(name='junk', file='tea.c', defs=['U_JUNK','U_LOG'], dfcc=False, unwind=34, swap=SW, fn=['Jsi_Encrypt'], cost=20, havoc=['Jsi_LogMsg']),
 ],
 native=[dict(name='n_tea', file='n_tea.c', fn=['SysEncryptCmd','SysDecryptCmd'])],
)
PROP['assumptions']=['message length 2 bytes to 2^24 (words up to 2^24)','composition of the encoder step sequence with the reversed decoder step sequence is the usual induction over steps (meta-level; each step inverse is proved)','dynamic-string accessors replaced by a ghost buffer','SHA-256 key digest is deterministic (its value is the digest property)']
META = dict(
 title='Encryption round trip: decrypting with the same key restores the original',
 statement='For every message of two or more bytes and every key, decrypting the encrypted message with the same key returns exactly the original bytes and length, and the cipher text is the block-TEA (XXTEA) encryption of the zero-padded message under the key (or its SHA-256 digest when it is not 32 bytes). Decrypting arbitrary bytes never returns more bytes than it was given.',
 quant='all messages of any length and content, all keys; for the last clause all byte strings',
 why='tests encrypt a handful of short sentences with two keys; rounds, neighbour wrap-around and padding depend on the length.',
 files=['src/jsiCrypto.c','src/jsiCmds.c'], mech=[('jsi_btea','src/jsiCrypto.c'),('Jsi_Encrypt padding protocol','src/jsiCrypto.c'),('Util.encrypt / Util.decrypt','src/jsiCmds.c')],
 note='Proved for every length: the encoder performs exactly the XXTEA step sequence and the decoder exactly its reverse with inverse steps (cut-point induction, arbitrary witness word), the step is inverted, and the padding wrapper restores the length and text. Trusted: CBMC; the composition of the two sequences is argued on paper. Script wrappers executed only (bounded).',
)
