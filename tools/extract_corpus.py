#!/usr/bin/env python3
"""One-off: builds harness/data/corpus.txt (one percent-escaped input per line) and
harness/data/longnames.tsv from the repository at the pinned commit.  The results are committed;
checks never re-run this, so that the workloads and the specification tables stay fixed while the code
under test changes."""
import re, os, glob, random
R='/repo'
out=set()
def add(b):
    if 0<len(b)<=400: out.add(bytes(b))
for f in glob.glob(R+'/crates/wolfram-parser/src/tests/*.rs')+glob.glob(R+'/crates/wolfram-parser/src/parse/parse_tests/*.rs')+[R+'/crates/wolfram-parser/src/tests.rs']:
    s=open(f,encoding='utf8').read()
    for m in re.finditer(r'r#"(.*?)"#',s,re.S): add(m.group(1).encode())
    for m in re.finditer(r'(?<![#r\\])"((?:[^"\\\n]|\\.)*)"',s):
        t=m.group(1)
        try:
            t=re.sub(r'\\u\{([0-9a-fA-F_]+)\}',lambda k:chr(int(k.group(1).replace('_',''),16)),t)
            t=re.sub(r'\\(x[0-9a-fA-F]{2}|.)',lambda k:{'n':'\n','t':'\t','r':'\r','0':'\0','\\':'\\','"':'"',"'":"'"}.get(k.group(1),chr(int(k.group(1)[1:],16)) if k.group(1)[0]=='x' else '\\'+k.group(1)),t)
            add(t.encode())
        except Exception: pass
for f in glob.glob(R+'/Tests/*.mt'):
    s=open(f,encoding='utf8',errors='surrogateescape').read()
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"',s,re.S):
        t=m.group(1)
        t=re.sub(r'\\(.)',lambda k:{'n':'\n','t':'\t','r':'\r','\\':'\\','"':'"'}.get(k.group(1),'\\'+k.group(1)),t,flags=re.S)
        b=t.encode('utf8','surrogateescape')
        if len(b)<=200: add(b)
rng=random.Random(1)
for f in sorted(glob.glob(R+'/Tests/files/*.txt')):
    if 'stackoverflow' in f or 'jpeg' in f: continue
    ls=[l for l in open(f,'rb').read().split(b'\n') if 0<len(l)<=200]
    rng.shuffle(ls)
    for l in ls[:150]: add(l)
for f in glob.glob(R+'/Tests/files/*.wl')+glob.glob(R+'/Tests/files/small/*'):
    add(open(f,'rb').read()[:400])
lines=sorted(out)
def esc(b): return ''.join(chr(c) if 32<=c<127 and c!=37 else '%%%02x'%c for c in b)
open('/verif/harness/data/corpus.txt','w').write('\n'.join(esc(b) for b in lines)+'\n')
s=open(R+'/crates/wolfram-parser/src/generated/long_names_registration.rs').read()
consts={}
for m in re.finditer(r"pub const (CODEPOINT_LONGNAME_\w+): (?:char|CodePoint) = (?:'\\u\{([0-9a-f]+)\}'|CodePoint::(\w+)|'(.*?)')",s):
    consts[m.group(1)]= m.group(2) or m.group(3) or '%x'%ord(m.group(4).encode().decode('unicode_escape'))
def blk(name):
    i=s.index('pub const '+name) ; j=s.index('= [',i); k=s.index('];',j); return s[j+3:k]
def cps(name): return set(consts[x] for x in re.findall(r'CODEPOINT_LONGNAME_\w+',blk(name)))
raw=set(re.findall(r'"(\w+)"',blk('RAW_SET')))
sets={'notstrange':cps('MB_NOT_STRAGE_LETTERLIKE_CODE_POINTS'),'punct':cps('MB_PUNCTUATION_CODE_POINTS'),'ws':cps('MB_WHITESPACE_CODE_POINTS'),'nl':cps('MB_NEWLINE_CODE_POINTS'),'unint':cps('MB_UNINTERPRETABLE_CODE_POINTS')}
rows=[]
for m in re.finditer(r'\("(\w+)",\s*(?:CodePoint::from_char\()?(CODEPOINT_LONGNAME_\w+)\)?\)',blk('LONGNAME_TO_CODEPOINT_MAP')):
    n,c=m.group(1),consts[m.group(2)]
    tags=[t for t,v in sets.items() if c in v]+(['raw'] if n in raw else [])
    rows.append((n,c,','.join(tags) or '-'))
open('/verif/harness/data/longnames.tsv','w').write(''.join('\t'.join(r)+'\n' for r in rows))
print(len(lines),sum(map(len,lines)),len(rows),{k:len(v) for k,v in sets.items()})
# operator table: for every "char -> TokenKind" mapping and for every parselet
ops={}
i=s.index('fn LongNameCodePointToOperator')
for m in re.finditer(r'(CODEPOINT_LONGNAME_\w+) => return (LongName_\w+|\w+)',s[i:]): ops[m.group(2)]=consts[m.group(1)]
cp2name={}
for n,c,t in rows: cp2name.setdefault(c,n)
pv=dict(re.findall(r'pub const (\w+): Precedence = Precedence::new\((\d+)\)',open(R+'/crates/wolfram-parser/src/generated/precedence_values.rs').read()))
tp=open(R+'/crates/wolfram-parser/src/parse/token_parselets.rs').read()
o=[]
for m in re.finditer(r'TK::(\w+)\s*=> &(Prefix|Infix|Binary|Postfix)OperatorParselet::new\(Precedence::(\w+), ?(?:Prefix|Infix|Binary|Postfix)Operator:: ?(\w+)\)',tp):
    o.append((m.group(2),m.group(1),pv[m.group(3)],m.group(4)))
for m in re.finditer(r'TK::(\w+)\s*=> &TimesParselet',tp): o.append(('Times',m.group(1),pv['STAR'],'Times'))
with open('/verif/harness/data/ops.tsv','w') as f:
    for role,tk,p,op in o:
        cp=ops.get(tk)
        f.write('\t'.join([role,tk,p,op,cp or '-',cp2name.get(cp,'-') if cp else '-'])+'\n')
print(len(o))
