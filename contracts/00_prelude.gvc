pkg filtering

// bit i (0 = most significant) of a byte
spec bit8(b byte, i int) bool = ite(i == 0, extract(b, 7, 7) == 1, ite(i == 1, extract(b, 6, 6) == 1, ite(i == 2, extract(b, 5, 5) == 1, ite(i == 3, extract(b, 4, 4) == 1, ite(i == 4, extract(b, 3, 3) == 1, ite(i == 5, extract(b, 2, 2) == 1, ite(i == 6, extract(b, 1, 1) == 1, extract(b, 0, 0) == 1)))))))

// bit k of a byte string, most significant bit of byte 0 first
spec idbit(id string, k int) bool = bit8(id[k / 8], k % 8)

spec runes(s string) []rune
spec str(r []rune) string
axiom runes_len(s string)
  trig: runes(s)
  ensures: len(runes(s)) <= len(s)

spec ascii(s string) bool = forall(i, imp(0 <= i && i < len(s), s[i] < 128), trig(s[i]))
axiom runes_ascii(s string)
  trig: runes(s)
  ensures: imp(ascii(s), len(runes(s)) == len(s))
axiom runes_at(s string, i int)
  trig: runes(s)[i]
  ensures: imp(ascii(s) && 0 <= i && i < len(s), runes(s)[i] == rune(s[i]))

// string(b) for a byte b: one byte up to 127, two in UTF-8 beyond
uninterp bytestr(b byte) string
axiom bytestr_def(b byte)
  trig: bytestr(b)
  ensures: bytestr(b) == ite(b < 128, unit(b), unit(192 | b >> 6) + unit(128 | b & 63))

spec asciir(s []rune) bool = forall(i, imp(0 <= i && i < len(s), 0 <= s[i] && s[i] < 128), trig(s[i]))
axiom str_len(r []rune)
  trig: str(r)
  ensures: imp(asciir(r), len(str(r)) == len(r))
axiom str_at(r []rune, i int)
  trig: str(r)[i]
  ensures: imp(asciir(r) && 0 <= i && i < len(r), rune(str(r)[i]) == r[i])
