//go:build go1.22

// Package c11: the text of every typed attribute is decoded exactly or reported.
package c11

import (
	"image/color"
	"math"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=50 thorough=800

// decode reads a document with one attribute; ok is false when the text is reported, as it should.
func decode(a *lib.Attr, text string) (m *go3mf.Model, ok bool) {
	m = new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(a.Doc(text)), m)
	if err == nil {
		return m, true
	}
	errs := lib.Flatten(err)
	sym.Assert(len(errs) >= 1, "a malformed value is reported")
	for _, e := range errs {
		p, isAttr := e.Err.(*errors.ParseAttrError)
		sym.Assert(isAttr && p.Name == a.Local() && p.Required == a.Required, "the error names the attribute and whether it is required")
		sym.Assert(e.XPath() == a.XPath(), "the error is located at the element")
	}
	return m, false
}

func digits(s string) (v uint64, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + uint64(s[i]-'0')
	}
	return v, len(s) > 0 && v <= math.MaxUint32
}

func uintIs(a *lib.Attr, text string) {
	want, ok := digits(text)
	m, got := decode(a, text)
	sym.Assert(got == ok, "exactly the decimal numbers of 32 bits are accepted")
	if got {
		sym.Assert(a.Get(m).(uint32) == uint32(want), "the number is the one written")
		sym.Cover("number")
	} else {
		sym.Cover("rejected")
	}
}

// Any short text as an identifier or index.
func H_uint() {
	a := lib.OfKind(lib.Uint)
	uintIs(a, sym.StringOf(sym.Choice(sym.Bound(3, 5)), "0123456789+-. _xa\n"))
}

// Ten digits, around the largest number.
func H_uint32() {
	a := lib.OfKind(lib.Uint)
	switch sym.Choice(3) {
	case 0:
		uintIs(a, sym.StringOf(1, "45")+"29496729"+sym.StringOf(1, "0123456789"))
	case 1:
		uintIs(a, []string{"0", "00", ""}[sym.Choice(3)]+"4294967"[:7-sym.Bound(0, 1)]+sym.StringOf(3+sym.Bound(0, 1), "0123456789"))
	default:
		uintIs(a, "429496729"+sym.StringOf(1, "0123456789")+"0")
	}
}

// number is any text of the grammar of numbers with a few digits, and what it denotes. The digits
// and the power of ten are exact, so one rounding gives the closest number.
func number() (text string, value float32) {
	sign := sym.Choice(3)
	text = []string{"", "-", "+"}[sign]
	i, f := sym.Choice(sym.Bound(2, 3)), sym.Choice(sym.Bound(2, 3))
	sym.Assume(i+f > 0)
	var mant uint64
	s := sym.StringOf(1, "123456789") + sym.StringOf(i+f-1, "0123456789")
	if sym.Choice(3) == 0 {
		s = "0000"[:i+f-1] + s[:1]
	}
	for k := 0; k < len(s); k++ {
		mant = mant*10 + uint64(s[k]-'0')
	}
	text += s[:i]
	if f > 0 {
		text += "." + s[i:]
	}
	k := sym.Choice(4)
	text += []string{"", "e0", "E+3", "e-2"}[k]
	e := []int{0, 0, 3, -2}[k] - f
	pow := []float32{1, 10, 100, 1000, 10000}
	value = float32(mant)
	if sign == 1 {
		value = -value
	}
	if e >= 0 {
		value *= pow[e]
	} else {
		value /= pow[-e]
	}
	return
}

// Any number of a few digits as a coordinate or size.
func H_float() {
	a := lib.OfKind(lib.Float)
	text, want := number()
	m, ok := decode(a, text)
	sym.Assert(ok, "numbers are accepted")
	got := a.Get(m).(float32)
	sym.Assert(got == want, "the number is the one written")
	sym.Cover("number")
}

// Texts that are not numbers.
func H_notfloat() {
	a := lib.OfKind(lib.Float)
	bad := []string{"", "+", "-", ".", "e", "e1", "1e", "1e+", "--1", "1-", "1.2.3", "1,5", " 1", "1 ", "0x", "1_0", "x", "1e39", "-1e39", "3.5e38", "1f", "#1", "1e400"}
	_, ok := decode(a, bad[sym.Choice(len(bad))])
	sym.Assert(!ok, "texts that are not numbers are reported")
	good := []string{"3.4028234e38", "-3.4028235e38", "1e-45", "16777217", "0.1", "1e-50", "123456789"}
	want := []float32{3.4028234e38, -3.4028235e38, 1e-45, 16777216, 0.1, 0, 123456792}
	i := sym.Choice(len(good))
	m, ok := decode(a, good[i])
	sym.Assert(ok, "numbers are accepted")
	sym.Assert(a.Get(m).(float32) == want[i], "the number is the closest of its type")
}

// One arbitrary character in a number.
func H_floatbyte() {
	a := lib.OfKind(lib.Float)
	b := sym.Byte()
	sym.Assume(b != '<' && b != '&' && b != '"' && b < 0x80)
	_, ok := decode(a, "1"+string([]byte{b})+"2")
	sym.Assert(ok == (b >= '0' && b <= '9' || b == '.' || b == 'e' || b == 'E'), "texts that are not numbers are reported")
	_, ok = decode(a, string([]byte{b}))
	sym.Assert(ok == (b >= '0' && b <= '9'), "texts that are not numbers are reported")
}

func nibble(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

func colorOf(s string) (c color.RGBA, ok bool) {
	if len(s) != 7 && len(s) != 9 || s[0] != '#' {
		return c, false
	}
	ch := [4]byte{3: 255}
	for i := 1; i < len(s); i += 2 {
		h, ok1 := nibble(s[i])
		l, ok2 := nibble(s[i+1])
		if !ok1 || !ok2 {
			return c, false
		}
		ch[i/2] = h<<4 | l
	}
	return color.RGBA{R: ch[0], G: ch[1], B: ch[2], A: ch[3]}, true
}

// Colors: any digits, and any character at any place.
func H_color() {
	a := lib.OfKind(lib.Color)
	n := []int{7, 9}[sym.Choice(2)]
	at := sym.Choice(n)
	b := []byte("#1a2B3c4D"[:n])
	for i := at; i < n && i < at+sym.Bound(2, 3); i++ {
		b[i] = sym.Byte()
		sym.Assume(b[i] != '<' && b[i] != '&' && b[i] != '"' && b[i] != '\r')
	}
	want, ok := colorOf(string(b))
	m, got := decode(a, string(b))
	sym.Assert(got == ok, "exactly the colors of six or eight digits are accepted")
	if got {
		sym.Assert(a.Get(m).(color.RGBA) == want, "the color is the one written")
		sym.Cover("color")
	}
}

// Colors of any length.
func H_colorlength() {
	a := lib.OfKind(lib.Color)
	n := sym.Choice(12)
	_, got := decode(a, "#0123456789a"[:n])
	sym.Assert(got == (n == 7 || n == 9), "exactly the colors of six or eight digits are accepted")
	_, got = decode(a, "0#123456789a"[:n])
	sym.Assert(!got, "exactly the colors of six or eight digits are accepted")
}

// Enumerations: the specified spellings and texts that differ from one in any character.
func H_enum() {
	a := lib.OfKind(lib.Enum)
	i := sym.Choice(len(a.Enum))
	s := a.Enum[i]
	switch sym.Choice(4) {
	case 0:
	case 1:
		if len(s) > 0 {
			at := sym.Choice(len(s))
			b := sym.Byte()
			sym.Assume(b != '<' && b != '&' && b != '"' && b != '\r')
			s = s[:at] + string([]byte{b}) + s[at+1:]
		}
	case 2:
		s += sym.StringOf(1, " abcdefghijklmnopqrstuvwxyz")
	default:
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	}
	want := -1
	for k, e := range a.Enum {
		if e == s && e != "" {
			want = k
		}
	}
	m, ok := decode(a, s)
	sym.Assert(ok == (want >= 0), "exactly the specified spellings are accepted")
	if ok {
		sym.Assert(a.Get(m).(int) == want, "the value is the one written")
		sym.Cover("enum")
	}
}

// Transforms: twelve numbers in the right places.
func H_transform() {
	a := lib.OfKind(lib.Transform)
	text := ""
	var want go3mf.Matrix
	want[15] = 1
	sep := []string{" ", "  ", "\n", "\t "}[sym.Choice(4)]
	for i := 0; i < 12; i++ {
		d := sym.StringOf(1, "123456789") + sym.StringOf(1, "0123456789")
		if i > 0 {
			text += sep
		}
		text += d[:1] + "." + d[1:]
		want[i/3*4+i%3] = float32(uint64(d[0]-'0')*10+uint64(d[1]-'0')) / 10
	}
	m, ok := decode(a, text)
	sym.Assert(ok, "a transform of twelve numbers is accepted")
	sym.Assert(a.Get(m).(go3mf.Matrix) == want, "the transform is the one written")
	sym.Cover("transform")
}

// Transforms with another count of numbers, or with something else in any place.
func H_nottransform() {
	a := lib.OfKind(lib.Transform)
	n := sym.Choice(15)
	at := sym.Choice(n + 1)
	text := ""
	c := sym.StringOf(1, "0123456789x.-")
	for i := 0; i < n; i++ {
		if i > 0 {
			text += " "
		}
		if i == at {
			text += c
		} else {
			text += "1"
		}
	}
	_, ok := decode(a, text)
	sym.Assert(ok == (n == 12 && (at == n || c[0] >= '0' && c[0] <= '9')), "exactly the transforms of twelve numbers are accepted")
}

// UUIDs: one of the forms with a window of arbitrary characters.
func H_uuid() {
	a := lib.OfKind(lib.UUID)
	good := "f47ac10b-58cc-0372-8567-0e02b2c3d479"
	forms := []string{good, "urn:uuid:" + good, "{" + good + "}", "f47ac10b58cc037285670e02b2c3d479"}
	s := forms[sym.Choice(4)]
	at := sym.Choice(len(s))
	b := sym.Byte()
	sym.Assume(b != '<' && b != '&' && b != '"' && b != '\r' && b < 0x80)
	s = s[:at] + string([]byte{b}) + s[at+1:]
	m, ok := decode(a, s)
	sym.Assert(ok == lib.UUIDText(s), "exactly the well formed UUIDs are accepted")
	if ok {
		sym.Assert(a.Get(m).(string) == s, "the UUID is the one written")
		sym.Cover("uuid")
	}
}

// UUIDs of other lengths.
func H_uuidlength() {
	a := lib.OfKind(lib.UUID)
	good := "f47ac10b-58cc-0372-8567-0e02b2c3d479f47ac10b-58cc-0372-8567-0e02b2c3d479"
	n := sym.Choice(50)
	_, ok := decode(a, good[:n])
	sym.Assert(ok == (n == 36), "exactly the well formed UUIDs are accepted")
}

// Lists of numbers.
func H_uints() {
	a := lib.OfKind(lib.Uints)
	text := ""
	var want []uint32
	ok := true
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		s := sym.StringOf(1, "0123456789")
		if i == 1 {
			s = "429496729" + sym.StringOf(1, "0123456789x-")
		}
		v, isNum := digits(s)
		ok = ok && isNum
		text += s + []string{" ", "\n "}[sym.Choice(2)]
		want = append(want, uint32(v))
	}
	m, got := decode(a, text)
	sym.Assert(got == ok, "exactly the lists of numbers are accepted")
	if got {
		sym.Assert(sym.Equal(a.Get(m).([]uint32), want), "the numbers are those written, in order")
		sym.Cover("list")
	}
}

func H_floats() {
	a := lib.OfKind(lib.Floats)
	text := ""
	var want []float32
	ok := true
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		s := sym.StringOf(1, "0123456789x.")
		isNum := s[0] != 'x' && s[0] != '.'
		ok = ok && isNum
		text += s + ".5" + []string{" ", "\n "}[sym.Choice(2)]
		want = append(want, float32(s[0]-'0')+0.5)
	}
	m, got := decode(a, text)
	sym.Assert(got == ok, "exactly the lists of numbers are accepted")
	if got {
		sym.Assert(sym.Equal(a.Get(m).([]float32), want), "the numbers are those written, in order")
		sym.Cover("list")
	}
}

func H_enums() {
	a := lib.OfKind(lib.Enums)
	text := ""
	want := []int{}
	ok := true
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		k := sym.Choice(3)
		s := []string{"mix", "multiply", "mi" + sym.StringOf(1, "abcdefghijklmnopqrstuvwxyzX")}[k]
		if s == "mix" {
			k = 0
		}
		ok = ok && k < 2
		text += s + " "
		want = append(want, k)
	}
	m, got := decode(a, text)
	sym.Assert(got == ok, "exactly the lists of the specified spellings are accepted")
	if got {
		sym.Assert(sym.Equal(a.Get(m).([]int), want), "the values are those written, in order")
		sym.Cover("list")
	}
}
