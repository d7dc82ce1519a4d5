package idna
import "unicode/utf8"
// returns status: 0 valid,1 mapped,2 ignored,3 disallowed ; mapping ; joinType(0..4, 6=virama via attr), modifier
func Dump(r rune)(st int, m string, jt int, vir bool, mod bool){
  var b [4]byte
  n:=utf8.EncodeRune(b[:],r)
  s:=string(b[:n])
  v,_:=trie.lookupString(s)
  p:=&Profile{options{}}
  c:=info(v)
  switch p.simplify(c.category()){
  case valid: st=0
  case deviation: st=0
  case mapped: st=1; m=string(c.appendMapping(nil,s))
  case ignored: st=2
  default: st=3
  }
  jt=int(c.joinType()); vir=c.isViramaModifier(); mod=c.isModifier()
  return
}
var UV=UnicodeVersion
