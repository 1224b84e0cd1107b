PROP = dict(
 proofs=[ dict(name='crc32', file='crc.c', dfcc=False, loops=True, fn=['Jsi_Crc32'], cost=10),
          dict(name='crc_check', file='crc.c', dfcc=False, fn=[], unwind=12) ],
 native=[dict(name='n_crc', file='n_crc.c', fn=['SysCrc32Cmd'])],
)
META = dict(
 title='CRC-32 equals the IEEE 802.3 polynomial checksum for every input',
 statement='The 32-bit checksum reported for any byte string equals the reflected IEEE 802.3 CRC (polynomial 0xEDB88320) of those bytes, and continuing from a previous checksum gives the checksum of the concatenation.',
 quant='all byte strings of any length and all starting values',
 why='tests check one or two strings; the table-driven update must be right for all 256 table entries at every position.',
 files=['src/jsiCmds.c'], mech=[('Jsi_Crc32','src/jsiCmds.c'),('System.crc32 command','src/jsiCmds.c')],
 note='Proved for all lengths: each loop iteration performs exactly one bitwise CRC step of the specification on the next byte (all table entries), by a loop invariant against a bit-serial ghost CRC. Trusted: CBMC and the SAT back end. Command wrapper only executed (bounded).',
)
PROP['assumptions']=['the buffer holds the given number of bytes']
