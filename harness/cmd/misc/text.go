package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("S01", "a case takes one text (few-letter, multi-byte, with repeats and overlaps, whitespace of every kind, or arbitrary bytes) and one pattern, applies every text operation and compares with a naive reference working byte by byte or character by character; non-trivial when text and pattern are not empty")
	mon.Need("S01", "pattern found", 1000)
	mon.Need("S01", "pattern not found", 1000)
	mon.Need("S01", "pattern found more than once", 500)
	mon.Need("S01", "trimmed", 500)
	mon.Need("S01", "invalid text", 200)
	mon.Need("S01", "case changed", 500)
	mon.Reg("S01", "search", 12000, 300000, searchText)
	mon.Reg("S01", "trim-case", 8000, 200000, trimCase)
	mon.Reg("S01", "push-pop", 4000, 100000, pushPop)
	mon.Reg("S01", "case-every-character", 17, 17, caseEvery)
	mon.Reg("S01", "push-pop-after-any-bytes", 8000, 200000, popAny)
	mon.Need("S01", "character popped behind invalid text", 2000)

	mon.Rule("S02", "a case encodes one text, or decodes one sequence of 16-bit units with paired, swapped or lone surrogates, and compares with a reference codec written for this purpose; every character of every plane is enumerated; non-trivial when the input is not empty")
	mon.Need("S02", "unpaired surrogate", 1000)
	mon.Need("S02", "surrogate pair", 1000)
	mon.Reg("S02", "utf16-random", 12000, 300000, utf16Random)
	mon.Reg("S02", "utf16-every-unit", 16, 64, utf16Units)
	mon.Reg("S02", "every-character", 17, 17, everyChar)
	mon.Reg("S02", "bytes", 4000, 100000, bytesCase)

	mon.Rule("F01", "a case is one template of literal pieces, doubled braces and placeholders with one argument each, of random renderable types; the result is compared with the pieces put together by hand; non-trivial when there are at least two placeholders")
	mon.Need("F01", "argument with braces in its text", 1000)
	mon.Need("F01", "doubled brace", 1000)
	mon.Need("F01", "collection argument", 1000)
	mon.Need("F01", "invalid bytes in the template", 1000)
	mon.Reg("F01", "format", 16000, 400000, formatCase)
	mon.Reg("F01", "format-enumerated", 7, 8, formatEnum)

	mon.Rule("T01", "a case builds one duration from random or boundary amounts, and compares every unit and part with exact integers; non-trivial when the sub-second part is not zero or the amount cannot be represented")
	mon.Need("T01", "unrepresentable", 500)
	mon.Need("T01", "nanoseconds carried", 1000)
	mon.Reg("T01", "new", 20000, 500000, durationNew)
	mon.Reg("T01", "from", 20000, 500000, durationFrom)
}

var alphabets = [][]rune{
	[]rune("\ufeffa\u0000"), []rune("\ufffd\ufeffa"), []rune("\u00a0\u0085 \u200ba\u2028"), []rune("e\u0301\u00e9\u0345a"),
	[]rune("ab"), []rune("aé"), []rune("日本a"), []rune("a \t\n"), []rune("😀a"), []rune("abcXYZ ,"), []rune("{}%\\\""), []rune("ÀàΣσıİ"),
}

func genText(r *mon.Rand, max int) string {
	if r.P(0.08) { // arbitrary bytes
		b := make([]byte, r.N(max))
		for i := range b {
			b[i] = byte(mon.Pick(r, 'a', 0x80, 0xff, 0xc3, 0xe6, 0x00, r.N(256)))
		}
		return string(b)
	}
	al := mon.Pick(r, alphabets...)
	var b strings.Builder
	for n := r.Size(max); n > 0; n-- {
		b.WriteRune(al[r.N(len(al))])
	}
	return b.String()
}

// at reports whether p lies in s at i.
func at(s, p string, i int) bool {
	if i+len(p) > len(s) {
		return false
	}
	for j := 0; j < len(p); j++ {
		if s[i+j] != p[j] {
			return false
		}
	}
	return true
}

func naiveSplit(s, p string) []string {
	out := []string{""}
	for i := 0; i < len(s); {
		if at(s, p, i) {
			out = append(out, "")
			i += len(p)
		} else {
			out[len(out)-1] += s[i : i+1]
			i++
		}
	}
	return out
}

func joinWith(parts []string, sep string) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += sep
		}
		s += p
	}
	return s
}

func gostStrings(v gost.Vec[gost.String]) []string {
	var out []string
	for _, s := range v.AsSlice() {
		out = append(out, string(s))
	}
	return out
}

func valid(s string) bool { return strings.ToValidUTF8(s, "") == s }

func searchText(c *mon.Case) {
	r := c.R
	s := genText(r, 40)
	p := genText(r, 3)
	if len(s) > 0 && r.P(0.5) { // a piece of the text
		i := r.N(len(s))
		p = s[i : i+r.N(min(len(s)-i, 4)+1)]
	}
	w := genText(r, 4)
	c.Op("text", s, p, w)
	g := gost.String(s)
	c.Evals(8)
	if s != "" && p != "" {
		c.Nontrivial()
	}
	if !valid(s) || !valid(p) {
		c.Event("invalid text")
	}
	c.Check(int(g.Len()) == len(s), "Len() of %q is %d", s, g.Len())
	c.Check(bool(g.IsEmpty()) == (len(s) == 0), "IsEmpty() of %q is %v", s, g.IsEmpty())
	found := -1
	for i := 0; i <= len(s) && found < 0; i++ {
		if at(s, p, i) {
			found = i
		}
	}
	c.Check(bool(g.Contains(gost.String(p))) == (found >= 0), "%q.Contains(%q) is %v", s, p, g.Contains(gost.String(p)))
	o := g.Find(gost.String(p))
	c.Check(bool(o.IsSome()) == (found >= 0), "%q.Find(%q) is Some=%v, want %v", s, p, o.IsSome(), found >= 0)
	if found >= 0 {
		c.Event("pattern found")
		c.Check(int(o.Unwrap()) == found, "%q.Find(%q) is %d, want %d", s, p, o.Unwrap(), found)
	} else {
		c.Event("pattern not found")
	}
	if p != "" {
		want := naiveSplit(s, p)
		if len(want) > 2 {
			c.Event("pattern found more than once")
		}
		sp := g.Split(gost.String(p))
		got := gostStrings(sp)
		c.Check(slices.Equal(got, want) && int(sp.Len()) == len(want), "%q.Split(%q) is %q, want %q", s, p, got, want)
		c.Check(joinWith(got, p) == s, "%q.Split(%q) rejoins to %q", s, p, joinWith(got, p))
		rep := string(g.Replace(gost.String(p), gost.String(w)))
		c.Check(rep == joinWith(want, w), "%q.Replace(%q, %q) is %q, want %q", s, p, w, rep, joinWith(want, w))
	}
	if valid(s) { // the empty pattern lies before and after every character
		want := w
		for _, ch := range s {
			want += string(ch) + w
		}
		rep := string(g.Replace("", gost.String(w)))
		c.Check(rep == want, "%q.Replace(\"\", %q) is %q, want %q", s, w, rep, want)
	}
	n := mon.Pick(r, 0, 1, 2, 3, 10, r.N(40))
	want := ""
	for i := 0; i < n; i++ {
		want += s
	}
	c.Check(string(g.Repeat(gost.USize(n))) == want, "%q.Repeat(%d) is %q", s, n, g.Repeat(gost.USize(n)))
	c.Check(string(g.Add(gost.String(p))) == s+p, "%q.Add(%q) is %q", s, p, g.Add(gost.String(p)))
	c.Check(string(g) == s, "the text changed from %q to %q", s, g)
	g.AddAssign(gost.String(p))
	c.Check(string(g) == s+p, "%q.AddAssign(%q) leaves %q", s, p, g)
}

// the White_Space property
var spaces = []rune{9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000}

func isSpace(r rune) bool { return slices.Contains(spaces, r) }

func trimCase(c *mon.Case) {
	r := c.R
	var rs []rune
	pad := func() {
		for i := r.N(4); i > 0; i-- {
			rs = append(rs, mon.Pick(r, spaces...))
		}
	}
	pad()
	al := mon.Pick(r, alphabets...)
	for i := r.N(8); i > 0; i-- {
		rs = append(rs, mon.Pick(r, al...))
		if r.P(0.2) {
			pad()
		}
		if r.P(0.1) {
			rs = append(rs, mon.Pick(r, rune(0x200b), 0x180e, 0xfeff, 0x1c, 0)) // look like space, are not
		}
	}
	pad()
	s := string(rs)
	c.Op("text", s)
	if s != "" {
		c.Nontrivial()
	}
	i, j := 0, len(rs)
	for i < j && isSpace(rs[i]) {
		i++
	}
	for i < j && isSpace(rs[j-1]) {
		j--
	}
	g := gost.String(s)
	c.Evals(3)
	want := string(rs[i:j])
	if want != s {
		c.Event("trimmed")
	}
	c.Check(string(g.Trim()) == want, "%q.Trim() is %q, want %q", s, g.Trim(), want)
	lo, up := "", ""
	for _, x := range rs {
		lo += string(unicode.ToLower(x))
		up += string(unicode.ToUpper(x))
	}
	if lo != s || up != s {
		c.Event("case changed")
	}
	c.Check(string(g.ToLowercase()) == lo, "%q.ToLowercase() is %q, want %q", s, g.ToLowercase(), lo)
	c.Check(string(g.ToUppercase()) == up, "%q.ToUppercase() is %q, want %q", s, g.ToUppercase(), up)
	c.Check(string(g) == s, "the text changed from %q to %q", s, g)
}

// caseEvery checks both case mappings on every character of one plane, alone
// and between ASCII letters.
func caseEvery(c *mon.Case) {
	plane := rune(c.Index)
	c.Op("plane", c.Index)
	c.Nontrivial()
	n := 0
	for x := plane << 16; x < (plane+1)<<16; x++ {
		if x >= 0xd800 && x < 0xe000 {
			continue
		}
		if plane > 1 && x&0xff > 3 { // no cased letters up there: sample
			continue
		}
		n += 2
		s := "aZ" + string(x)
		g := gost.String(s)
		if string(g.ToUppercase()) != "AZ"+string(unicode.ToUpper(x)) {
			c.Fail("%q.ToUppercase() is %q", s, g.ToUppercase())
		}
		if string(g.ToLowercase()) != "az"+string(unicode.ToLower(x)) {
			c.Fail("%q.ToLowercase() is %q", s, g.ToLowercase())
		}
	}
	c.EventN("case changed", n)
	c.Evals(n)
	c.Enumerated(n)
}

func genChar(r *mon.Rand) rune {
	for {
		x := mon.Pick(r, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, rune(r.N(128)), rune(r.N(0x800)), rune(r.N(0x10000)), rune(r.N(0x110000)), 0xfffd, 0)
		if x < 0xd800 || x > 0xdfff {
			return x
		}
	}
}

// enc is UTF-8 encoding, written out.
func enc(x rune) string {
	switch {
	case x < 0x80:
		return string([]byte{byte(x)})
	case x < 0x800:
		return string([]byte{0xc0 | byte(x>>6), 0x80 | byte(x&63)})
	case x < 0x10000:
		return string([]byte{0xe0 | byte(x>>12), 0x80 | byte(x>>6&63), 0x80 | byte(x&63)})
	}
	return string([]byte{0xf0 | byte(x>>18), 0x80 | byte(x>>12&63), 0x80 | byte(x>>6&63), 0x80 | byte(x&63)})
}

func encAll(rs []rune) string {
	s := ""
	for _, x := range rs {
		s += enc(x)
	}
	return s
}

func pushPop(c *mon.Case) {
	r := c.R
	var rs []rune
	var g gost.String
	for i := r.In(1, 40); i > 0; i-- {
		c.Evals(1)
		if r.P(0.6) {
			x := genChar(r)
			c.Op("Push", int(x))
			got := g.Push(gost.Char(x))
			rs = append(rs, x)
			c.Check(string(got) == encAll(rs), "Push(%U) returned %q, want %q", x, got, encAll(rs))
			c.Nontrivial()
		} else {
			c.Op("Pop")
			o := g.Pop()
			c.Check(bool(o.IsSome()) == (len(rs) > 0), "Pop() of %q is Some=%v", encAll(rs), o.IsSome())
			if len(rs) > 0 {
				c.Check(rune(o.Unwrap()) == rs[len(rs)-1], "Pop() is %U, want %U", rune(o.Unwrap()), rs[len(rs)-1])
				rs = rs[:len(rs)-1]
			}
		}
		c.Check(string(g) == encAll(rs), "the text is %q, want %q", g, encAll(rs))
		var got []rune
		for _, x := range g.Chars().AsSlice() {
			got = append(got, rune(x))
		}
		c.Check(slices.Equal(got, rs), "Chars() of %q is %U, want %U", g, got, rs)
	}
}

// popAny: characters pushed behind any bytes, valid or not, are popped again
// and leave the bytes as they were.
func popAny(c *mon.Case) {
	r := c.R
	b := make([]byte, r.Size(30))
	for i := range b {
		b[i] = byte(mon.Pick(r, 'a', 0x80, 0xff, 0xc3, 0xe6, 0xf0, 0x00, r.N(256)))
	}
	want := string(b)
	g := gost.String(want)
	c.Op("text", want)
	var rs []rune
	for i := r.In(1, 6); i > 0; i-- {
		x := genChar(r)
		rs = append(rs, x)
		g.Push(gost.Char(x))
	}
	c.Op("Push", string(rs))
	c.Check(string(g) == want+encAll(rs), "pushing %q to %q gave %q", string(rs), want, g)
	for i := len(rs) - 1; i >= 0; i-- {
		o := g.Pop()
		c.Evals(1)
		c.Check(bool(o.IsSome()) && rune(o.Unwrap()) == rs[i], "Pop() of %q did not give %U", want+encAll(rs[:i+1]), rs[i])
		c.Check(string(g) == want+encAll(rs[:i]), "Pop() of %q leaves %q", want+encAll(rs[:i+1]), g)
		if !utf8.ValidString(want) {
			c.Event("character popped behind invalid text")
			c.Nontrivial()
		}
	}
}

// ------------------------------------------------------------- encodings

func units(rs []rune) []uint16 {
	var out []uint16
	for _, x := range rs {
		if x < 0x10000 {
			out = append(out, uint16(x))
		} else {
			x -= 0x10000
			out = append(out, uint16(0xd800+x>>10), uint16(0xdc00+x&0x3ff))
		}
	}
	return out
}

// decode is UTF-16 decoding, written out; ok is false for an unpaired surrogate.
func decode(u []uint16) (s string, pairs int, ok bool) {
	for i := 0; i < len(u); i++ {
		x := rune(u[i])
		switch {
		case x >= 0xd800 && x <= 0xdbff:
			if i+1 == len(u) || u[i+1] < 0xdc00 || u[i+1] > 0xdfff {
				return "", pairs, false
			}
			pairs++
			s += enc(0x10000 + (x-0xd800)<<10 + rune(u[i+1]) - 0xdc00)
			i++
		case x >= 0xdc00 && x <= 0xdfff:
			return "", pairs, false
		default:
			s += enc(x)
		}
	}
	return s, pairs, true
}

func checkUnits(c *mon.Case, u []uint16) {
	v := gost.VecNew[gost.U16]()
	for _, x := range u {
		v.Push(gost.U16(x))
	}
	want, pairs, ok := decode(u)
	c.Evals(1)
	if pairs > 0 {
		c.Event("surrogate pair")
	}
	if !ok {
		c.Event("unpaired surrogate")
	}
	res := gost.StringFromUTF16(v)
	c.Check(bool(res.IsOk()) == ok && bool(res.IsErr()) == !ok, "StringFromUTF16(%04x) is Ok=%v, want %v", u, res.IsOk(), ok)
	if ok {
		c.Check(string(res.Unwrap()) == want, "StringFromUTF16(%04x) is %q, want %q", u, res.Unwrap(), want)
	}
	for i, x := range v.AsSlice() {
		c.Check(uint16(x) == u[i], "decoding changed unit %d", i)
	}
}

func utf16Random(c *mon.Case) {
	r := c.R
	var u []uint16
	if r.Bool() {
		var rs []rune
		for i := r.Size(30); i > 0; i-- {
			rs = append(rs, genChar(r))
		}
		u = units(rs)
		if len(u) > 0 && r.P(0.3) { // lose, repeat or swap a unit
			i := r.N(len(u))
			switch r.N(3) {
			case 0:
				u = slices.Delete(u, i, i+1)
			case 1:
				u = slices.Insert(u, i, u[i])
			case 2:
				j := r.N(len(u))
				u[i], u[j] = u[j], u[i]
			}
		}
	} else {
		for i := r.Size(12); i > 0; i-- {
			u = append(u, mon.Pick(r, 'a', 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0, uint16(0xd800+r.N(0x800)), uint16(r.N(0x10000))))
		}
	}
	c.Op("units", fmt.Sprintf("%04x", u))
	if len(u) > 0 {
		c.Nontrivial()
	}
	checkUnits(c, u)
}

// utf16Units decodes every single unit, alone and before and after others.
func utf16Units(c *mon.Case) {
	n := 0
	slices := 16
	if c.Tier == "thorough" {
		slices = 64
	}
	c.Op("slice", c.Index)
	c.Nontrivial()
	for x := c.Index; x < 0x10000; x += slices {
		near := x >= 0xd700 && x < 0xe100
		n++
		checkUnits(c, []uint16{uint16(x)})
		if near {
			n += 4
			checkUnits(c, []uint16{uint16(x), 0xdc00})
			checkUnits(c, []uint16{0xd800, uint16(x)})
			checkUnits(c, []uint16{'a', uint16(x), 'b'})
			checkUnits(c, []uint16{uint16(x), 0xdfff, 0xdbff})
		}
	}
	c.Enumerated(n)
}

func everyChar(c *mon.Case) {
	plane := rune(c.Index)
	c.Op("plane", c.Index)
	c.Nontrivial()
	n := 0
	step := rune(1)
	if c.Tier != "thorough" && plane > 1 {
		step = 37
	}
	for x := plane << 16; x < (plane+1)<<16; x += step {
		if x >= 0xd800 && x < 0xe000 {
			continue
		}
		n++
		checkUnits(c, units([]rune{x}))
		var g gost.String
		g.Push(gost.Char(x))
		if string(g) != enc(x) {
			c.Fail("Push(%U) makes % x, want % x", x, string(g), enc(x))
		}
		ch := g.Chars()
		if ch.Len() != 1 || rune(ch.GetUnchecked(0)) != x {
			c.Fail("Chars() of %U is %v", x, ch.AsSlice())
		}
		lone := gost.StringFromUTF8(g.IntoBytes())
		first := gost.StringFromUTF8(gost.String(enc(x) + "a" + enc(x)).IntoBytes())
		if lone != g || string(first) != enc(x)+"a"+enc(x) {
			c.Fail("the bytes of %U decode as % x; at a text's ends, as % x", x, string(lone), string(first))
		}
		o := g.Pop()
		if !bool(o.IsSome()) || rune(o.Unwrap()) != x || g != "" {
			c.Fail("Pop() of %U is %v and leaves %q", x, o, g)
		}
	}
	c.Evals(n * 3)
	c.Enumerated(n)
}

func bytesCase(c *mon.Case) {
	s := genText(c.R, 60)
	c.Op("text", s)
	if s != "" {
		c.Nontrivial()
	}
	g := gost.String(s)
	v := g.IntoBytes()
	c.Evals(3)
	c.Check(int(v.Len()) == len(s), "IntoBytes() of %q has %d bytes", s, v.Len())
	for i, b := range v.AsSlice() {
		c.Check(byte(b) == s[i], "byte %d of %q is %d", i, s, b)
	}
	back := gost.StringFromUTF8(v)
	c.Check(string(back) == s, "StringFromUTF8(IntoBytes()) of %q is %q", s, back)
	if len(s) > 0 { // neither depends on the vector afterwards
		v.SetUnchecked(0, gost.U8(s[0])+1)
		c.Check(string(back) == s && string(g) == s, "changing the byte vector changed the text %q to %q, %q", s, g, back)
	}
	if valid(s) {
		var rs []rune
		for _, x := range s {
			rs = append(rs, x)
		}
		var got []rune
		for _, x := range g.Chars().AsSlice() {
			got = append(got, rune(x))
		}
		c.Check(slices.Equal(got, rs), "Chars() of %q is %U", s, got)
		var again gost.String
		for _, x := range got {
			again.Push(gost.Char(x))
		}
		c.Check(string(again) == s, "pushing Chars() of %q gives %q", s, again)
	}
}

// -------------------------------------------------------------- formatting

type point struct{ x, y int }

func (p point) Display() gost.String { return gost.String(fmt.Sprintf("{%d;%d}", p.x, p.y)) }

// anyArg is a renderable value with its text, rendered without the library.
func anyArg(r *mon.Rand) (any, string) {
	n := r.N(300) - 100
	switch r.N(22) {
	case 0:
		return gost.I8(n), strconv.Itoa(int(int8(n)))
	case 1:
		return gost.I16(n), strconv.Itoa(n)
	case 2:
		return gost.I32(n), strconv.Itoa(n)
	case 3:
		return gost.I64(math.MinInt64), "-9223372036854775808"
	case 4:
		return gost.U8(n), strconv.Itoa(int(uint8(n)))
	case 5:
		return gost.U64(math.MaxUint64), "18446744073709551615"
	case 6:
		return gost.ISize(n), strconv.Itoa(n)
	case 7:
		return gost.USize(uint(n)), strconv.FormatUint(uint64(n), 10)
	case 8:
		return gost.I128_FromI64(gost.I64(n)), strconv.Itoa(n)
	case 9:
		return gost.Bool(n > 0), strconv.FormatBool(n > 0)
	case 10, 11, 12:
		s := genText(r, 8)
		return gost.String(s), s
	case 13:
		s := mon.Pick(r, "{}", "{", "}", "{{", "}}", "{{}}", "a{}b")
		return gost.String(s), s
	case 14:
		return point{n, 1}, fmt.Sprintf("{%d;1}", n)
	case 15:
		v := gost.VecNew[gost.String]()
		v.Push("{}")
		v.Push("x")
		return v, "Vec[{}, x]"
	case 16:
		return gost.Some(gost.I32(n)), fmt.Sprintf("Some(%d)", n)
	case 17:
		return gost.Pair[gost.I32, gost.String]{Key: gost.I32(n), Value: "}"}, fmt.Sprintf("Pair[%d, }]", n)
	case 18:
		m := gost.BTreeMapNew[gost.I32, gost.String]()
		m.Insert(2, "{")
		m.Insert(1, "b")
		return m, "BTreeMap{1: b, 2: {}"
	case 19:
		m := gost.HashMapNew[gost.String, gost.I32]()
		m.Insert("{k}", gost.I32(n))
		return m, fmt.Sprintf("HashMap{{k}: %d}", n)
	case 20:
		m := gost.HashSetNew[gost.I32]()
		m.Insert(gost.I32(n))
		return m, fmt.Sprintf("HashSet{%d}", n)
	default:
		l := gost.LinkedListNew[gost.U8]()
		l.PushBack(1)
		d := gost.VecDequeNew[gost.LinkedList[gost.U8]]()
		d.PushFront(l)
		return d, "VecDeque[LinkedList[1]]"
	}
}

func note(c *mon.Case, a any, s string) {
	if strings.ContainsAny(s, "{}") {
		c.Event("argument with braces in its text")
	}
	switch a.(type) {
	case gost.Vec[gost.String], gost.BTreeMap[gost.I32, gost.String], gost.HashMap[gost.String, gost.I32], gost.VecDeque[gost.LinkedList[gost.U8]]:
		c.Event("collection argument")
	}
}

func formatCase(c *mon.Case) {
	r := c.R
	var tmpl, want strings.Builder
	var args []any
	for i := r.Size(14); i > 0; i-- {
		switch r.N(5) {
		case 0:
			lit := mon.Pick(r, "a", "né", "日本", " ", "%d%s", "\\n", "\n", "😀", "\x00", ":?", "0", "\xff", "\xc3", "\xe6\x97", "\ufffd")
			if !utf8.ValidString(lit) {
				c.Event("invalid bytes in the template")
			}
			tmpl.WriteString(lit)
			want.WriteString(lit)
		case 1:
			tmpl.WriteString("{{")
			want.WriteString("{")
			c.Event("doubled brace")
		case 2:
			tmpl.WriteString("}}")
			want.WriteString("}")
			c.Event("doubled brace")
		default:
			a, s := anyArg(r)
			note(c, a, s)
			tmpl.WriteString("{}")
			want.WriteString(s)
			args = append(args, a)
		}
	}
	c.Op("Format", tmpl.String(), want.String())
	if len(args) > 1 {
		c.Nontrivial()
	}
	got := string(gost.Format(gost.String(tmpl.String()), args...))
	c.Evals(1)
	c.Check(got == want.String(), "Format(%q, %d arguments) is %q, want %q", tmpl.String(), len(args), got, want.String())
}

// formatEnum enumerates every template of a given number of pieces.
func formatEnum(c *mon.Case) {
	pieces := []string{"{}", "{{", "}}", "a", "é"}
	n := c.Index
	c.Op("pieces", n)
	c.Nontrivial()
	total := 1
	for i := 0; i < n; i++ {
		total *= len(pieces)
	}
	for code := 0; code < total; code++ {
		tmpl, want := "", ""
		var args []any
		for i, k := 0, code; i < n; i, k = i+1, k/len(pieces) {
			p := pieces[k%len(pieces)]
			tmpl += p
			switch p {
			case "{}":
				s := fmt.Sprint("{", len(args), "}")
				args = append(args, gost.String(s))
				want += s
			case "{{":
				want += "{"
			case "}}":
				want += "}"
			default:
				want += p
			}
		}
		if got := string(gost.Format(gost.String(tmpl), args...)); got != want {
			c.Fail("Format(%q, %d arguments) is %q, want %q", tmpl, len(args), got, want)
		}
	}
	c.Evals(total)
	c.Enumerated(total)
}

// --------------------------------------------------------------- durations

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func u128(x gost.U128) string { return string(x.ToString()) }

func checkDuration(c *mon.Case, what string, d gost.Duration, nanos *big.Int) {
	c.Evals(1)
	secs, sub := new(big.Int).QuoRem(nanos, big.NewInt(1e9), new(big.Int))
	n := uint64(sub.Int64())
	if n != 0 {
		c.Nontrivial()
	}
	c.Check(uint64(d.AsSecs()) == secs.Uint64(), "%s: AsSecs() is %d, want %s", what, d.AsSecs(), secs)
	c.Check(uint64(d.SubsecNanos()) == n, "%s: SubsecNanos() is %d, want %d", what, d.SubsecNanos(), n)
	c.Check(uint64(d.SubsecMicros()) == n/1000, "%s: SubsecMicros() is %d, want %d", what, d.SubsecMicros(), n/1000)
	c.Check(uint64(d.SubsecMillis()) == n/1000000, "%s: SubsecMillis() is %d, want %d", what, d.SubsecMillis(), n/1000000)
	c.Check(bool(d.IsZero()) == (nanos.Sign() == 0), "%s: IsZero() is %v", what, d.IsZero())
	q := func(div int64) string { return new(big.Int).Quo(nanos, big.NewInt(div)).String() }
	c.Check(u128(d.AsNanos()) == q(1), "%s: AsNanos() is %s, want %s", what, u128(d.AsNanos()), q(1))
	c.Check(u128(d.AsMicros()) == q(1000), "%s: AsMicros() is %s, want %s", what, u128(d.AsMicros()), q(1000))
	c.Check(u128(d.AsMillis()) == q(1000000), "%s: AsMillis() is %s, want %s", what, u128(d.AsMillis()), q(1000000))
}

func durationNew(c *mon.Case) {
	r := c.R
	secs := r.Word()
	if r.P(0.3) {
		secs = math.MaxUint64 - uint64(r.N(7))
	}
	nanos := uint32(r.Word())
	if r.P(0.5) {
		k := uint32(r.N(5))
		nanos = mon.Pick(r, k*1000000000, k*1000000000-1, k*1000000000+1, k*1000000000+uint32(r.N(1000000000)), 999999999, math.MaxUint32)
	}
	c.Op("DurationNew", secs, int(nanos))
	if nanos >= 1000000000 {
		c.Event("nanoseconds carried")
	}
	total := new(big.Int).Add(new(big.Int).Mul(bi(secs), big.NewInt(1e9)), bi(uint64(nanos)))
	fits := new(big.Int).Quo(total, big.NewInt(1e9)).IsUint64()
	var d gost.Duration
	bad, _ := mon.Panics(func() { d = gost.DurationNew(gost.U64(secs), gost.U32(nanos)) })
	what := fmt.Sprintf("DurationNew(%d, %d)", secs, nanos)
	c.Evals(1)
	c.Check(bad == !fits, "%s: panicked is %v", what, bad)
	if !fits {
		c.Event("unrepresentable")
		c.Nontrivial()
		return
	}
	checkDuration(c, what, d, total)
}

func durationFrom(c *mon.Case) {
	r := c.R
	x := r.Word()
	unit := r.N(4)
	per := []int64{1e9, 1e6, 1e3, 1}[unit]
	if r.P(0.4) { // near a whole second
		x = uint64(r.N(1<<30))*uint64(1e9/per) + uint64(r.N(3)) - 1
	}
	name := []string{"DurationFromSecs", "DurationFromMillis", "DurationFromMicros", "DurationFromNanos"}[unit]
	c.Op(name, x)
	f := []func(gost.U64) gost.Duration{gost.DurationFromSecs, gost.DurationFromMillis, gost.DurationFromMicros, gost.DurationFromNanos}[unit]
	checkDuration(c, fmt.Sprintf("%s(%d)", name, x), f(gost.U64(x)), new(big.Int).Mul(bi(x), big.NewInt(per)))
}
