def U(n,fn,d,**k): return dict(dict(name=n,file='url.c',dfcc=False,unwind=18,backend='cadical',fn=fn,cost=10,defs=[d,'__NO_CTYPE']+(['U_LOG'] if d in('U_ENC','U_DEC') else [])),**k)
PROP=dict(proofs=[U('enc',['url_encode'],'U_ENC',cost=40),U('dec',['url_decode'],'U_DEC',cost=40),
 U('tohex',['jsi_ToHexStr'],'U_TOHEX'),U('fromhex',['jsi_FromHexStr'],'U_FROMHEX'),U('digit',['jsi_fromHexChar','jsi_toHexChar'],'U_DIGIT'),
 U('hexstr',['Jsi_HexStr'],'U_HEXSTR',swap={'jsi_ToHexStr':'s_tohex','jsi_FromHexStr':'s_fromhex'})],
 native=[dict(name='n_url',file='n_url.c',fn=['EncodeURICmd','DecodeURICmd','EncodeURIComponentCmd','DecodeURIComponentCmd','SysHexStrCmd'])])
PROP['rule']='one evaluation per string and command, compared with an independent encoder, then decoded again; non-trivial: at least one character was escaped'
PROP['assumptions']=['texts up to 2^29 bytes (a longer text would overflow the 32-bit buffer size)','loops are verified by cut points: one arbitrary iteration from an arbitrary state satisfying the invariant; the round trip over whole strings follows by induction over the tokens','C locale ctype (CBMC models)','strings without embedded NUL for the URL commands (they take C strings)','no allocation failure']
META=dict(title='URL and hexadecimal encodings invert exactly and stay in bounds',
 statement='For every string without NUL, encodeURI and encodeURIComponent replace exactly the characters outside their documented sets by %xx (space by + in the component form; bytes above 127 are kept, as the tests pin down), and the matching decode function returns the original string; decoding arbitrary text never reads beyond it, keeps malformed escapes literally and never grows. Util.hexStr encodes every byte as two lower-case digits, decodes exactly that (either case), and rejects everything else.',
 quant='all byte strings of any length', over=['inputs'],
 why='round-trip and memory safety range over every byte value at every position and over malformed escapes at the end of the text.',
 files=['src/jsiCmds.c','src/jsiUtils.c'], mech=[('url_encode / url_decode','src/jsiCmds.c'),('Jsi_HexStr, jsi_ToHexStr, jsi_FromHexStr','src/jsiUtils.c')],
 note='Proved for all lengths by cut points; command wrappers are bounded (native driver).')
