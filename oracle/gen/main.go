package main
import ("fmt";"os";"bufio";"unicode";"gen/net/idna";"gen/text/unicode/norm";"gen/text/unicode/bidi";"strings")
func hx(s string) string { var o []string; for _, r := range s { o = append(o, fmt.Sprintf("%X", r)) }; return strings.Join(o, " ") }
func main(){
  w:=bufio.NewWriter(os.Stdout); defer w.Flush()
  fmt.Fprintln(os.Stderr, idna.UnicodeVersion, norm.Version, bidi.UnicodeVersion, unicode.Version)
  for r:=rune(0); r<=0x10ffff; r++ {
    if r>=0xd800&&r<0xe000 {continue}
    s:=string(r)
    c,j,v,m,mp := idna.Dump(r)
    bp,_ := bidi.LookupString(s)
    p := norm.NFC.PropertiesString(s)
    d := ""
    if dd := norm.NFD.PropertiesString(s).Decomposition(); dd!=nil { d = hx(string(dd)) }
    nfc := norm.NFC.String(s); nf:=""; if nfc!=s {nf=hx(nfc)}
    cn := 1; if unicode.In(r, unicode.L,unicode.M,unicode.N,unicode.P,unicode.S,unicode.Z,unicode.Cc,unicode.Cf,unicode.Co) {cn=0}
    mm:=0; if unicode.Is(unicode.M,r){mm=1}
    fmt.Fprintf(w,"%X;%d;%d;%v;%v;%s;%d;%d;%s;%s;%d;%d\n",r,c,j,v,m,hx(mp),bp.Class(),p.CCC(),d,nf,cn,mm)
  }
}
