package idna
func Dump(r rune) (cat int, join int, virama bool, mod bool, mapped string) {
  s := string(r)
  v, _ := trie.lookupString(s)
  i := info(v)
  cat = int(i.category()); join = int(i.joinType()); virama = i.isViramaModifier(); mod = i.isModifier()
  if i.isMapped() { mapped = string(i.appendMapping(nil, s)) }
  return
}
