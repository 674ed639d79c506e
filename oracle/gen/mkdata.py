"""Writes oracle/ucd17.txt (Unicode 17.0, from Go's vendored x/text and x/net tables, cross-checked with
ICU 78 through node) and oracle/stale.txt (frozen: where the tables of the pinned commit are older)."""
import re,sys
GB=["L","R","EN","ES","ET","AN","CS","B","S","WS","ON","BN","NSM","AL","Control","?", "LRO","RLO","LRE","RLE","PDF","LRI","RLI","FSI","PDI"]
RB="NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()
out=sys.argv[1]
go=[l.rstrip('\n').split(';') for l in open('go17.txt')]
no=[l.rstrip('\n').split(';') for l in open('node17.txt')]
re_=[l.rstrip('\n').split(';') for l in open('repo.txt')]
def runs(items):
    """items: list of (cp,val), val None skipped"""
    r=[]
    for c,v in items:
        if v is None: continue
        if r and r[-1][1]==c-1 and r[-1][2]==v: r[-1][1]=c
        else: r.append([c,c,v])
    return r
cps=[int(g[0],16) for g in go]
st=[];ccc=[];bid=[];jt=[];vir=[];M=[];ids=[];idc=[];dec={};nfc={}
jn={1:'L',2:'D',3:'T',4:'R'}
valid=set()
for g,n in zip(go,no):
    c=int(g[0],16);cat=int(g[1])
    if cat in(8,0x18,0x28,0x80,3): s='V';valid.add(c)
    elif cat==0xC0: s='I'
    elif cat in(1,2): s='M '+g[5]
    else: s=None
    st.append((c,s)); ccc.append((c,int(g[7]) or None)); bid.append((c,GB[int(g[6])]))
    jt.append((c,jn.get(int(g[2])))); vir.append((c,'x' if g[3]=='true' else None))
    M.append((c,'x' if n[3]=='1' else None)); ids.append((c,'x' if n[1]=='1' else None)); idc.append((c,'x' if n[2]=='1' else None))
    if g[8] and not 0xac00<=c<=0xd7a3: dec[c]=tuple(int(x,16) for x in g[8].split())
    nfc[c]=g[9]
h=lambda l:' '.join('%X'%x for x in l)
byd={d:c for c,d in dec.items() if nfc[c]=='' and len(d)>=2}
pair={}
for d,c in byd.items():
    f=d[0] if len(d)==2 else byd[d[:-1]]
    pair[(f,d[-1])]=c
with open(out+'/ucd17.txt','w') as f:
    def w(k,items):
        for a,b,v in runs(items): f.write(f'{k} {a:X} {b:X}'+('' if v=='x' else f' {v}')+'\n')
    f.write('# Unicode 17.0. S: UTS46 status (V valid, I ignored, M mapped; others disallowed; nontransitional, STD3 off) c: ccc b: bidi class j: joining type v: virama m: General_Category M s: ID_Start t: ID_Continue d: full canonical decomposition p: primary composite\n')
    w('S',st);w('c',ccc);w('b',bid);w('j',jt);w('v',vir);w('m',M);w('s',ids);w('t',idc)
    for c in sorted(dec): f.write(f'd {c:X} {h(dec[c])}\n')
    for k in sorted(pair): f.write(f'p {k[0]:X} {k[1]:X} {pair[k]:X}\n')
# --- stale overlay
full={};comp={}
for l in open('repo2.txt'):
    p=l.split()
    if p[0]=='D': full[int(p[1],16)]=tuple(int(x,16) for x in p[2:])
    else: comp[(int(p[1],16),int(p[2],16))]=int(p[3],16)
src=open('validity_base.cpp').read()
def lst(n): return {int(x,16) for x in re.findall('0x[0-9A-Fa-f]+',re.search(r'uint32_t '+n+r'\[\] = \{(.*?)\};',src,re.S).group(1))}
V,R,L,D=lst('virama'),lst('R'),lst('L'),lst('D')
sb=[];sc=[];sm=[];sj=[];sv=[]
for g,r,n in zip(go,re_,no):
    c=int(g[0],16)
    if int(r[5])!=int(g[7]): sc.append((c,int(r[5])))
    if c in valid:
        rb=RB[int(r[4])]
        if rb!=GB[int(g[6])]: sb.append((c,rb))
        if r[6]!=n[3]: assert r[6]=='0'; sm.append((c,'x'))
        rj='L' if c in L else 'D' if c in D else 'R' if c in R else 'T' if rb=='NSM' else '-'
        if rj!=jn.get(int(g[2]),'-'): sj.append((c,rj))
        if (c in V)!=(g[3]=='true'): assert c not in V; sv.append((c,'x'))
with open(out+'/stale.txt','w') as f:
    f.write('# Where the tables of ada-url/idna at the pinned commit differ from Unicode 17.0 (frozen; known findings K2-K6). Same keys as ucd17.txt; each line gives the value of the library (m, v: property missing; d, p: entry missing).\n')
    def w(k,items):
        for a,b,v in runs(items): f.write(f'{k} {a:X} {b:X}'+('' if v=='x' else f' {v}')+'\n')
    w('c',sc);w('b',sb);w('j',sj);w('v',sv);w('m',sm)
    for c in sorted(dec):
        if full.get(c)!=dec[c]: assert c not in full; f.write(f'd {c:X}\n')
    assert not set(full)-set(dec)
    for k in sorted(pair):
        if comp.get(k)!=pair[k]: assert k not in comp; f.write(f'p {k[0]:X} {k[1]:X}\n')
    assert not set(comp)-set(pair)
