package main

import (
	"math/bits"
	"slices"
	"strings"
	"unicode"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Need("S01", "large text", 200)
	mon.Need("S01", "words of one checksum", 20)
	mon.Reg("S01", "large-search", 256, 12000, largeSearch)
	mon.Reg("S01", "large-edit", 160, 4000, largeEdit)
	mon.Need("S02", "large text", 100)
	mon.Reg("S02", "large", 256, 12000, largeUnits)
	mon.Need("F01", "large template", 100)
	mon.Reg("F01", "large", 160, 2000, largeFormat)
}

// bigLen is a length near one at which implementations change their ways.
func bigLen(r *mon.Rand) int {
	n := mon.Pick(r, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384)
	if r.P(0.2) {
		n = mon.Pick(r, 32768, 65536, 100000, 131072)
	}
	return n + r.In(-3, 4)
}

// bigText has n characters of a few-letter alphabet, or (sometimes) n arbitrary bytes.
func bigText(r *mon.Rand, n int) string {
	if r.P(0.1) {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(mon.Pick(r, 'a', 0x80, 0xff, 0xc3, 0xe6, 0x00, r.N(256)))
		}
		return string(b)
	}
	al := mon.Pick(r, alphabets...)
	var b strings.Builder
	same := r.P(0.3)
	for i := 0; i < n; i++ {
		if same && !r.P(0.001) {
			b.WriteRune(al[0])
		} else {
			b.WriteRune(al[r.N(len(al))])
		}
	}
	return b.String()
}

// occurrences lists where p starts in s, without overlaps, left to right.
func occurrences(s, p string) []int {
	// the failure function of the pattern: linear, and nobody's library
	fail := make([]int, len(p))
	for i, k := 1, 0; i < len(p); i++ {
		for k > 0 && p[i] != p[k] {
			k = fail[k-1]
		}
		if p[i] == p[k] {
			k++
		}
		fail[i] = k
	}
	var out []int
	for i, k := 0, 0; i < len(s); i++ {
		for k > 0 && s[i] != p[k] {
			k = fail[k-1]
		}
		if s[i] == p[k] {
			k++
		}
		if k == len(p) {
			out = append(out, i-k+1)
			k = 0
		}
	}
	return out
}

// thueMorse is a word of two letters and its complement: whatever the base, a
// checksum by powers of it, modulo a power of two, is the same of both.
func thueMorse(r *mon.Rand) (word, complement string) {
	n := 1 << r.In(8, 12)
	a, b := make([]byte, n), make([]byte, n)
	for i := range a {
		a[i] = 'a' + byte(bits.OnesCount(uint(i))&1)
		b[i] = 'a' + 'b' - a[i]
	}
	return string(a), string(b)
}

func short(s string) string {
	if len(s) > 60 {
		return s[:30] + "..." + s[len(s)-30:]
	}
	return s
}

func largeSearch(c *mon.Case) {
	r := c.R
	n := bigLen(r)
	s := bigText(r, n)
	var p string
	switch r.N(6) {
	case 5: // words whose polynomial checksums agree, by the bits of their places
		var q string
		q, p = thueMorse(r)
		p = p[r.N(2)*r.N(3):]
		s = q + strings.Repeat("#", r.N(2)*r.N(20)) + s[:r.N(len(s))]
		if r.P(0.3) {
			s += p
		}
		c.Event("words of one checksum")
	case 0:
		p = genText(r, 3)
	case 1: // a long piece of the text
		i := r.N(len(s))
		p = s[i : i+r.N(len(s)-i)/mon.Pick(r, 1, 10, 100)]
	case 2: // nearly a long piece of the text
		i := r.N(len(s))
		p = s[i:i+r.N(len(s)-i)/mon.Pick(r, 1, 10, 100)] + "#"
	case 3: // only at the very end
		p = "#@#" + strings.Repeat("z", r.N(70))
		s += p
	case 4:
		i := r.N(len(s))
		p = s[i:min(len(s), i+r.In(1, 5))]
	}
	if p == "" {
		p = "a"
	}
	w := genText(r, 4)
	c.Op("text", len(s), len(p), short(s), short(p), w)
	c.Event("large text")
	c.Nontrivial()
	c.Evals(6)
	g := gost.String(s)
	c.Check(int(g.Len()) == len(s), "Len() of %d bytes is %d", len(s), g.Len())
	at := occurrences(s, p)
	c.Check(bool(g.Contains(gost.String(p))) == (len(at) > 0), "Contains of %d bytes in %d is %v", len(p), len(s), g.Contains(gost.String(p)))
	o := g.Find(gost.String(p))
	c.Check(bool(o.IsSome()) == (len(at) > 0), "Find of %d bytes in %d is Some=%v", len(p), len(s), o.IsSome())
	if len(at) > 0 {
		c.Event("pattern found")
		c.Check(int(o.Unwrap()) == at[0], "Find of %d bytes in %d is %d, want %d", len(p), len(s), o.Unwrap(), at[0])
	} else {
		c.Event("pattern not found")
	}
	if len(at) > 1 {
		c.Event("pattern found more than once")
	}
	var parts []string
	var rep strings.Builder
	from := 0
	for _, i := range at {
		parts = append(parts, s[from:i])
		rep.WriteString(s[from:i])
		rep.WriteString(w)
		from = i + len(p)
	}
	parts = append(parts, s[from:])
	rep.WriteString(s[from:])
	sp := g.Split(gost.String(p))
	got := gostStrings(sp)
	c.Check(int(sp.Len()) == len(parts), "Split of %d bytes by %d gives %d parts, want %d", len(s), len(p), sp.Len(), len(parts))
	for i := range parts {
		c.Check(got[i] == parts[i], "Split of %d bytes by %d: part %d of %d is %q, want %q", len(s), len(p), i, len(parts), short(got[i]), short(parts[i]))
	}
	re := string(g.Replace(gost.String(p), gost.String(w)))
	c.Check(re == rep.String(), "Replace of %d bytes (%d places) in %d gives %d bytes %q, want %d bytes %q", len(p), len(at), len(s), len(re), short(re), rep.Len(), short(rep.String()))
	c.Check(string(g) == s, "the text changed")
}

func largeEdit(c *mon.Case) {
	r := c.R
	c.Event("large text")
	c.Nontrivial()
	c.Evals(1)
	switch r.N(4) {
	case 0: // trimming long paddings
		n := bigLen(r)
		var b strings.Builder
		pad := func() {
			for i := r.N(n); i > 0; i-- {
				b.WriteRune(mon.Pick(r, spaces...))
			}
		}
		pad()
		from := b.Len()
		core := strings.TrimFunc(bigText(r, r.N(n)), isSpace)
		if !valid(core) {
			core = "x"
		}
		b.WriteString(core)
		pad()
		s := b.String()
		c.Op("Trim", len(s), from, len(core))
		got := string(gost.String(s).Trim())
		c.Check(got == core, "Trim() of %d bytes leaves %d bytes, want %d", len(s), len(got), len(core))
	case 1:
		s := bigText(r, bigLen(r))
		if !valid(s) {
			s = strings.ToValidUTF8(s, "Q")
		}
		c.Op("case", len(s), short(s))
		var lo, up strings.Builder
		for _, x := range s {
			l, u := unicode.ToLower(x), unicode.ToUpper(x)
			lo.WriteString(enc(l))
			up.WriteString(enc(u))
		}
		g := gost.String(s)
		c.Check(string(g.ToLowercase()) == lo.String(), "ToLowercase() of %d bytes is %q, want %q", len(s), short(string(g.ToLowercase())), short(lo.String()))
		c.Check(string(g.ToUppercase()) == up.String(), "ToUppercase() of %d bytes is %q, want %q", len(s), short(string(g.ToUppercase())), short(up.String()))
		c.Check(string(g) == s, "the text changed")
	case 2: // built and taken down character by character
		n := r.In(200, 5000)
		var rs []rune
		var g gost.String
		var ends []int
		var b []byte
		c.Op("push", n)
		for i := 0; i < n; i++ {
			x := genChar(r)
			rs = append(rs, x)
			ends = append(ends, len(b))
			b = append(b, enc(x)...)
			g.Push(gost.Char(x))
			c.Check(len(g) == len(b), "after %d characters the text has %d bytes, want %d", i+1, len(g), len(b))
		}
		c.Check(string(g) == string(b), "after %d characters the text is not what was pushed", n)
		var got []rune
		for _, x := range g.Chars().AsSlice() {
			got = append(got, rune(x))
		}
		c.Check(slices.Equal(got, rs), "Chars() of %d characters gives %d others", n, len(got))
		c.Op("pop", n)
		for i := n - 1; i >= 0; i-- {
			o := g.Pop()
			c.Check(bool(o.IsSome()) && rune(o.Unwrap()) == rs[i], "Pop() of character %d is %v, want %U", i, o, rs[i])
			c.Check(string(g) == string(b[:ends[i]]), "after popping down to %d characters the text is another", i)
		}
		c.Check(bool(g.Pop().IsNone()) && g == "", "Pop() of an emptied text is Some")
	case 3:
		s := genText(r, mon.Pick(r, 2, 10, 400))
		n := bigLen(r)
		if len(s) > 12 {
			n %= 600
		}
		c.Op("Repeat", s, n)
		got := string(gost.String(s).Repeat(gost.USize(n)))
		c.Check(len(got) == n*len(s), "Repeat(%d) of %d bytes has %d", n, len(s), len(got))
		for i := 0; i < n; i++ {
			c.Check(got[i*len(s):(i+1)*len(s)] == s, "copy %d of Repeat(%d) of %q is %q", i, n, s, got[i*len(s):(i+1)*len(s)])
		}
		var acc gost.String
		k := min(n, 1500)
		var want strings.Builder
		for i := 0; i < k; i++ {
			p := genText(r, 4)
			want.WriteString(p)
			if r.Bool() {
				acc.AddAssign(gost.String(p))
			} else {
				acc = acc.Add(gost.String(p))
			}
			c.Check(len(acc) == want.Len(), "after %d additions the text has %d bytes, want %d", i+1, len(acc), want.Len())
		}
		c.Check(string(acc) == want.String(), "after %d additions the text is another", k)
	}
}

func largeUnits(c *mon.Case) {
	r := c.R
	n := min(bigLen(r), 20000)
	c.Event("large text")
	c.Nontrivial()
	if r.P(0.3) { // bytes
		s := bigText(r, n)
		c.Op("bytes", len(s), short(s))
		c.Evals(3)
		g := gost.String(s)
		v := g.IntoBytes()
		c.Check(int(v.Len()) == len(s), "IntoBytes() of %d bytes has %d", len(s), v.Len())
		for i, b := range v.AsSlice() {
			c.Check(byte(b) == s[i], "byte %d of %d is %d, want %d", i, len(s), b, s[i])
		}
		back := gost.StringFromUTF8(v)
		c.Check(string(back) == s, "StringFromUTF8(IntoBytes()) of %d bytes is %d others", len(s), len(back))
		for i := 0; i < len(s); i += 1 + r.N(50) {
			v.SetUnchecked(gost.USize(i), gost.U8(s[i])+1)
		}
		c.Check(string(back) == s && string(g) == s, "changing the byte vector changed the text")
		return
	}
	var rs []rune
	var want []byte
	all := r.P(0.2)
	for i := 0; i < n; i++ {
		x := rune('a' + i%20)
		if all || r.P(0.01) {
			x = genChar(r)
		}
		rs = append(rs, x)
		want = append(want, enc(x)...)
	}
	u := units(rs)
	bad := r.P(0.4)
	if bad { // one lone surrogate somewhere
		i := mon.Pick(r, 0, len(u)-1, len(u)/2, r.N(len(u)))
		u[i] = uint16(0xd800 + r.N(0x800))
		if wellFormed(u) { // it joined a pair, or was none
			return
		}
		c.Event("unpaired surrogate")
	} else if len(u) > n {
		c.Event("surrogate pair")
	}
	c.Op("units", len(u), bad)
	c.Evals(1)
	v := gost.VecNew[gost.U16]()
	for _, x := range u {
		v.Push(gost.U16(x))
	}
	res := gost.StringFromUTF16(v)
	c.Check(bool(res.IsOk()) == !bad, "StringFromUTF16 of %d units is Ok=%v, want %v", len(u), res.IsOk(), !bad)
	if !bad {
		got := string(res.Unwrap())
		c.Check(got == string(want), "StringFromUTF16 of %d units is %d bytes, want %d", len(u), len(got), len(want))
	}
}

func wellFormed(u []uint16) bool {
	for i := 0; i < len(u); i++ {
		switch {
		case u[i]>>10 == 0x36:
			if i+1 == len(u) || u[i+1]>>10 != 0x37 {
				return false
			}
			i++
		case u[i]>>10 == 0x37:
			return false
		}
	}
	return true
}

// largeFormat: long templates, long literals, long arguments, many arguments.
func largeFormat(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 60, 64, 100, 128, 255, 256, 300, 600, 1000, 1030) + r.In(-1, 2)
	var tmpl, want strings.Builder
	var args []any
	lit := r.N(3)
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			tmpl.WriteString("{{")
			want.WriteString("{")
		case 1:
			tmpl.WriteString("}}")
			want.WriteString("}")
		case 2:
			s := strings.Repeat(mon.Pick(r, "a", "né", "日本", "%s"), 1+r.N(mon.Pick(r, 2, 40, 300)*lit+1))
			tmpl.WriteString(s)
			want.WriteString(s)
		default:
			a, s := anyArg(r)
			if r.P(0.02) {
				s = strings.Repeat(mon.Pick(r, "{}", "x", "日{"), 1+r.N(3000))
				a = gost.String(s)
			}
			note(c, a, s)
			tmpl.WriteString("{}")
			want.WriteString(s)
			args = append(args, a)
		}
	}
	c.Event("large template")
	c.Op("Format", n, len(args), tmpl.Len())
	c.Nontrivial()
	c.Evals(1)
	got := string(gost.Format(gost.String(tmpl.String()), args...))
	i := 0
	for i < min(len(got), want.Len()) && got[i] == want.String()[i] {
		i++
	}
	c.Check(got == want.String(), "a template of %d bytes with %d arguments renders %d bytes, want %d; they differ at %d: %q, want %q", tmpl.Len(), len(args), len(got), want.Len(), i, short(got[i:]), short(want.String()[i:]))
}
