def U(n,fn,**k):
    d=dict(name=n,file='utf.c',dfcc=False,unwind=6,backend='cadical',fn=fn,cost=10,defs=['__NO_CTYPE']); d.update(k); return d
PROP=dict(proofs=[U('i2o',['Jsi_UtfIndexToOffset','Jsi_UtfToUniChar'],loops=True),U('at',['Jsi_UtfAtIndex'],loops=True),U('cnt',['Jsi_NumUtfChars'],loops=True),U('cnt0',['Jsi_NumUtfChars'],loops=True),
 U('codec',['Jsi_UniCharToUtf','Jsi_UtfToUniChar','Jsi_NumUtfBytes']),U('decode',['Jsi_UtfToUniChar','Jsi_UtfToUniCharCase']),U('hex',['Jsi_UtfEncode','Jsi_UtfDecode','jsi_toHexChar','jsi_fromHexChar'],defs=['__NO_CTYPE','U_UTILS']),U('hexdec',['Jsi_UtfDecode','jsi_fromHexChar'],defs=['__NO_CTYPE','U_UTILS']),
 U('substr',['Jsi_UtfSubstr'],loops=True,swap={'Jsi_UtfIndexToOffset':'s_i2o','Jsi_NumUtfChars':'s_cnt','Jsi_Strlen':'s_len','Jsi_DSAppendLen':'s_app','Jsi_DSValue':'s_val'}),
 U('get',['Jsi_UtfGetIndex'],swap={'Jsi_UtfAtIndex':'s_at'}),
 U('case',['jsi_utf_tocase'],file='ucase.c',loops=True,swap={'Jsi_DSAppend':'s_append','Jsi_DSValue':'s_val'}),
],native=[dict(name='n_utf',file='n_utf.c',fn=['StringSubstrCmd','StringCharAtCmd','StringCharCodeAtCmd','StringFromCharCodeCmd','jsiEvalSubscript (string index)'])])
PROP['rule']='one evaluation per code point (exhaustive below U+3000 and around the surrogates, sampled above) and per random text (all character operations compared with a reference); every random text is distinct; non-trivial: contains multi-byte characters'
PROP['assumptions']=['text contains no NUL byte (strings are NUL-terminated C strings for these functions)','well-formedness of the text is assumed at each visited character for the counting unit; the other units hold for arbitrary bytes','C locale for toupper/tolower','text shorter than 2 GB']
META=dict(title='UTF-8 text: codec inverts, character index/length/substring agree',
 statement='Encoding a code point and decoding it again gives the same code point, in the shortest form, and decoding any byte sequence consumes a whole well-formed sequence or exactly one byte and never passes the terminator. On any text, length is the number of characters, the i-th character starts where the first i characters end, substr(n,len) is exactly the bytes of the characters n..n+len-1 (negative n counts from the end), charAt/[i]/charCodeAt/fromCharCode agree with them, case conversion keeps every non-ASCII character, and \\uNNNN escapes round-trip.',
 quant='all code points, all byte sequences, all texts of any length and all indices',
 why='multi-byte boundaries, malformed sequences and indices combine without limit; tests use two or three fixed strings with one three-byte character.',
 files=['src/jsiUtf8.c','src/jsiString.c','src/jsiValue.c','src/jsiEval.c'],
 mech=[('Jsi_UniCharToUtf / Jsi_UtfToUniChar','src/jsiUtf8.c'),('Jsi_UtfIndexToOffset / Jsi_UtfAtIndex / Jsi_NumUtfChars','src/jsiUtf8.c'),('Jsi_UtfSubstr','src/jsiUtf8.c'),('jsi_utf_tocase','src/jsiString.c')],
 note='Every function of the codec is under contract (loop invariants over an arbitrary-length text). The script-level wrappers (argument handling) are exercised by the bounded driver only.')
