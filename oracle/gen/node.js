// U17 props from ICU 78 through JS regex / normalize
const fs=require('fs');let o=[];
const bt=['IDS','IDC','M','Cn'];
const re={IDS:/^\p{ID_Start}$/u,IDC:/^\p{ID_Continue}$/u,M:/^\p{M}$/u,Cn:/^\p{Cn}$/u};
for(let c=0;c<=0x10ffff;c++){ if(c>=0xd800&&c<0xe000)continue; const s=String.fromCodePoint(c);
 const hx=t=>t===s?'':[...t].map(x=>x.codePointAt(0).toString(16).toUpperCase()).join(' ');
 o.push([c.toString(16).toUpperCase(),...bt.map(k=>+re[k].test(s)),hx(s.normalize('NFC')),hx(s.normalize('NFD')),hx(s.normalize('NFKC'))].join(';'));
}
fs.writeFileSync('/tmp/gen/node17.txt',o.join('\n')+'\n');
