import collections,unicodedata
GB=["L","R","EN","ES","ET","AN","CS","B","S","WS","ON","BN","NSM","AL","Control","?", "LRO","RLO","LRE","RLE","PDF","LRI","RLI","FSI","PDI"]
RB="NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()
go=[l.rstrip('\n').split(';') for l in open('go17.txt')]
no=[l.rstrip('\n').split(';') for l in open('node17.txt')]
re=[l.rstrip('\n').split(';') for l in open('repo.txt')]
cnt=collections.Counter(); ex=collections.defaultdict(list)
def bad(k,*a): 
    cnt[k]+=1
    if len(ex[k])<12: ex[k].append(a)
for g,n,r in zip(go,no,re):
    c=int(g[0],16); assert g[0]==n[0]==r[0]
    if g[9]!=n[5]: bad('go/node NFC',g[0],g[9],n[5])
    if g[8]!=n[6] and not(0xac00<=c<=0xd7a3): bad('go/node NFD',g[0],g[8],n[6])
    if g[11]!=n[3]: bad('go/node M',g[0])
    if g[10]!=n[4] : bad('go/node Cn',g[0],g[10],n[4])
    cat=int(g[1]); rok=r[1]=='1'; rm=r[2].strip()
    if cat in(8,0x18,0x28,0x80,3): gm=(True,g[0])
    elif cat==0xC0: gm=(True,'')
    elif cat in(1,2): gm=(True,g[5])
    else: gm=(False,'')
    if gm!=(rok,rm): bad('map cat%d'%cat,g[0],gm,(rok,rm))
    rn=r[3].strip(); 
    if rn==r[0]: rn=''
    if rn!=g[9]: bad('nfc single',g[0],g[9],rn,'valid' if gm[1]==g[0] else 'notvalid')
    if rn!=g[9] and gm[1]==g[0]: bad('nfc single VALID',g[0],g[9],rn)
    if int(r[5])!=int(g[7]): bad('ccc',g[0],g[7],r[5])
    if r[6]!=n[3]: bad('comb %s'%('valid' if gm[1]==g[0] else 'notvalid'),g[0],n[3],r[6])
    gb=GB[int(g[6])]; rb=RB[int(r[4])]
    if gb!=rb and g[10]=='0': bad('bidi %s'%('valid' if gm[1]==g[0] else 'notvalid'),g[0],gb,rb)
    es=n[1]=='1' or c in(0x24,0x5f); ec=n[2]=='1' or c==0x24
    if r[7]!=str(int(es)): bad('ids',g[0],n[1],r[7])
    if r[8]!=str(int(ec)): bad('idc',g[0],n[2],r[8])
for k in cnt: print(k,cnt[k],ex[k])
