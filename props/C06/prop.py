PROP = dict(
 proofs=[
  dict(name='b64encode', file='b64.c', defs=['U_ENC'], enforce='B64EncodeDStr', replace=['Jsi_DSAppendLen'], loops=True, backend='cadical',
       fn=['B64EncodeDStr'], flags=['--no-undefined-shift-check'], cost=60),
  dict(name='b64getidx', file='b64.c', defs=['U_GETIDX'], dfcc=False, unwind=4, unwindset={'strchr.0':67}, fn=['b64getidx'], cost=30),
  dict(name='b64decode', file='b64.c', defs=['U_DEC'], enforce='B64DecodeDStr', replace=['Jsi_DSAppendLen'], loops=True, backend='cadical', swap={'b64getidx':'spec_getidx'},
       fn=['B64DecodeDStr'], cost=60),
 ],
 native=[dict(name='n_b64', file='n_b64.c', fn=['SysBase64Cmd','B64EncodeCmd','B64DecodeCmd','Jsi_Base64'])],
)
META = dict(
 title='Base64 encode/decode agree with RFC 4648 and are exact inverses',
 statement='For every byte string, the Base64 encoder produces exactly the RFC 4648 text (standard alphabet, padding with = to a multiple of four; a line break after every 72 characters) and decoding that text gives back the original bytes, every byte value included. Decoding never reads outside its input or produces more bytes than the text encodes.',
 quant='all byte strings of any length for the encoder; all texts of any length for the decoder (memory safety and per-quantum meaning)',
 why='tests encode a few ASCII strings; the claim ranges over every length, every byte value and every position in the 3/4-byte grouping.',
 files=['src/jsiCmds.c'], mech=[('B64EncodeDStr','src/jsiCmds.c'),('B64DecodeDStr / b64getidx','src/jsiCmds.c'),('System.base64 command','src/jsiCmds.c')],
 note='Proved for all lengths up to 2^30: each output quantum of the encoder and each byte of the decoder at an arbitrary witness position equals the RFC 4648 spec, and all memory accesses are in bounds. Trusted: CBMC and its libc models, contract of the dynamic-string append (ghost sink). The command wrappers are only executed (bounded).',
)
PROP['assumptions']=['Jsi_DSAppendLen is replaced by a contract that appends exactly the given bytes (proved separately in the dynamic-string property)','input length at most 2^30 bytes','encoder input is NUL-terminated as every string value is']
