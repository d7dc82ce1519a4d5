// Cross-check of the reference data against node's ICU (Unicode 17): NFC, NFD, \p{M}, ID_Start, ID_Continue.
const fs=require('fs');let bad=0,n=0;
for(const l of fs.readFileSync(process.argv[2],'utf8').split('\n')){ if(!l)continue;
 const m=l.match(/^(\w+) (\d) \[([^\]]*)\] (\d) (\w+) (\w+) (\d+) \[([^\]]*)\] \[([^\]]*)\] (\d+) (\w+) (\w+) (\w+) (\w+)/);
 const c=parseInt(m[1],16),s=String.fromCodePoint(c);
 const seq=t=>t.split(' ').map(x=>String.fromCodePoint(parseInt(x,16))).join('');
 const t=(n2,a,b)=>{if(a!==b){bad++;if(bad<20)console.log(m[1],n2,a,b)}};
 t('nfd',seq(m[8]),s.normalize('NFD'));t('nfc',seq(m[9]),s.normalize('NFC'));
 t('M',m[11]=='true',/\p{M}/u.test(s));t('IDS',m[12]=='true',/\p{ID_Start}/u.test(s));t('IDC',m[13]=='true',/\p{ID_Continue}/u.test(s));n++}
console.log(n,'code points,',bad,'differences, ICU',process.versions.icu,'Unicode',process.versions.unicode);
