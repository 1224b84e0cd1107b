A=dict(jsmn_alloc_token='s_alloc')
PROP=dict(proofs=[
 dict(name='quote',file='str.c',dfcc=False,unwind=9,backend='cadical',fn=['jsiQuoteString','Jsi_UtfEncode'],cost=20,defs=['U_ENC','U_QUOTE']),
 dict(name='jquote',file='str.c',dfcc=False,unwind=9,backend='cadical',fn=['Jsi_JSONQuote','Jsi_UtfEncode'],cost=20,defs=['U_ENC','U_JQ']),
 dict(name='dec',file='str.c',dfcc=False,unwind=9,backend='cadical',fn=['jsonNewDString','Jsi_UtfDecode'],cost=20,defs=['U_DEC']),
 dict(name='inv',file='str.c',dfcc=False,unwind=9,backend='cadical',fn=[],cost=5,defs=['U_INV']),
 dict(name='str',file='tok.c',dfcc=False,unwind=7,backend='cadical',fn=['Jsi_JsonParse_string','jsmn_fill_token','jsmn_error'],cost=10,defs=['U_PIECE','P_STR'],swap=A),
 dict(name='prim',file='tok.c',dfcc=False,unwind=7,backend='cadical',fn=['Jsi_JsonParse_primitive'],cost=10,defs=['U_PIECE'],swap=A),
 dict(name='alloc',file='tok.c',dfcc=False,unwind=3,backend='cadical',fn=['jsmn_alloc_token'],cost=10,defs=['U_ALLOC']),
 ]+[dict(name='main_'+n,entry='h_main',kind='bounded',note='token tables of up to 4 entries, text of any length',file='tok.c',dfcc=False,unwind=3,backend='cadical',fn=['Jsi_JsonParse'],cost=60,defs=['U_MAIN']+d,swap=dict(A,Jsi_JsonParse_string='s_str',Jsi_JsonParse_primitive='s_prim')) for n,d in
  [('open',['P_OPEN']),('openg',['P_OPEN','P_GROW']),('close',['P_CLOSE']),('leaf',['P_LEAF']),('leafg',['P_LEAF','P_GROW']),('sep',['P_SEP'])]],native=[dict(name='n_json',file='n_json.c',fn=['jsonGen1Value','jsonGenObject','jsonGenArray','Jsi_JSONParse','jsiValueGetString'])])
for u in PROP['proofs']: u['defs']=u['defs']+['__NO_CTYPE']
PROP['rule']='one evaluation per text: a random value written in random JSON style is read by the real code, compared, written and read back; broken variants must be refused; non-trivial: a non-empty container'
PROP['assumptions']=['texts below 2^30 bytes','well-formed UTF-8 without NUL characters for the round trip','numbers agree to 15 significant digits (dblPrec) after writing','the loops over literals are verified by cut points; the value of a whole string follows by induction over its tokens','dynamic strings by contract (C02)','C locale for isprint/isxdigit (CBMC models)','nesting is limited by the C stack; construction of the value from the tokens and the walk over arrays and objects when writing are executed only (bounded)']
META=dict(title='JSON text and values convert into each other without loss',
 statement='Parsing any JSON text (strict or not) gives exactly the value it denotes: every escape, also \\/ and surrogate pairs, every nesting and any white space; JSON.stringify of a value made of null, booleans, finite numbers, strings, arrays and objects (with any keys) is JSON text that denotes that value, so parse(stringify(v)) equals v. Each string token reaches from behind its opening quote to the first unescaped quote; every bracket closes the innermost open one of its kind; unclosed or mismatched brackets, unterminated strings and unknown escapes are refused; no text makes the parser touch memory outside the text and its token table.',
 quant='all texts and all JSON values, both modes', over=['inputs'],
 why='escapes, multi-byte and non-BMP characters, nesting, growth of the token table and separators combine without limit; the tests parse a few fixed texts.',
 files=['src/jsmn.c','src/jsiJSON.c','src/jsiUtils.c'], mech=[('Jsi_JsonParse, Jsi_JsonParse_string, jsmn_alloc_token','src/jsmn.c'),('jsonNewDString, Jsi_JSONParse, Jsi_JSONQuote','src/jsiJSON.c'),('jsiQuoteString, jsiValueGetString','src/jsiUtils.c')],
 note='Proved for texts of any length: writing of a string, reading of a literal, their inversion for every character, string and word tokens, growth of the token table. Bounded: the main tokenizer step (token tables of up to 4 entries, text of any length); building and walking values (native driver). The parser is lenient about missing commas and malformed words (they are not claimed to be refused).')
