package main
import ("fmt";"dump/x/net/idna";"dump/x/text/unicode/norm";"dump/x/text/unicode/bidi";"unicode";"bufio";"os")
func in(ts []*unicode.RangeTable, r rune) bool { for _,t:=range ts { if unicode.Is(t,r){return true}}; return false}
func main(){
 w:=bufio.NewWriter(os.Stdout); defer w.Flush()
 fmt.Fprintln(os.Stderr, unicode.Version, norm.Version, bidi.UnicodeVersion, idna.UV)
 for r:=rune(0);r<0x110000;r++{
  if r>=0xd800&&r<0xe000 {continue}
  st,m,jt,vir,mod:=idna.Dump(r)
  s:=string(r)
  p:=norm.NFD.PropertiesString(s)
  d:=norm.NFD.String(s)
  c:=norm.NFC.String(s)
  bp,_:=bidi.LookupString(s)
  gm:=unicode.Is(unicode.M,r)
  mn:=unicode.In(r,unicode.Mn,unicode.Me)
  ps:=unicode.In(r,unicode.Pattern_Syntax,unicode.Pattern_White_Space)
  ids:=(unicode.In(r,unicode.L,unicode.Nl,unicode.Other_ID_Start))&&!ps
  idc:=(ids||unicode.In(r,unicode.Mn,unicode.Mc,unicode.Nd,unicode.Pc,unicode.Other_ID_Continue))&&!ps
  fmt.Fprintf(w,"%X %d %X %d %t %t %d %X %X %d %t %t %t %t\n",r,st,[]rune(m),jt,vir,mod,p.CCC(),[]rune(d),[]rune(c),bp.Class(),gm,ids,idc,mn)
 }
}
