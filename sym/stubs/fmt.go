//go:build go1.22

// Package verifstub holds the models the engine interprets instead of some
// library functions (reflection, archives, clocks).
package verifstub

import (
	"errors"
	"io"
	"strconv"

	sym "github.com/hpinc/go3mf/internal/verifsym"
)

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type stringer interface{ String() string }

func isNumber(c byte) bool { return c >= '0' && c <= '9' }

func hexOf(s string, upper bool) string {
	d := "0123456789abcdef"
	if upper {
		d = "0123456789ABCDEF"
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, d[s[i]>>4], d[s[i]&15])
	}
	return string(b)
}

func pad(s string, width int, zero, minus bool) string {
	for len(s) < width {
		switch {
		case minus:
			s = s + " "
		case zero:
			if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
				s = s[:1] + "0" + s[1:]
			} else {
				s = "0" + s
			}
		default:
			s = " " + s
		}
	}
	return s
}

func formatInt(verb byte, neg bool, u uint64, bits int) (string, bool) {
	base := 10
	switch verb {
	case 'd', 'v':
	case 'x', 'X':
		base = 16
	case 'b':
		base = 2
	case 'o':
		base = 8
	case 'c':
		return string(rune(u)), true
	case 'U':
		s := ""
		for i := 0; i < 4 || u != 0; i++ {
			s = "0123456789ABCDEF"[u&15:u&15+1] + s
			u >>= 4
		}
		return "U+" + s, true
	default:
		return "", false
	}
	s := ""
	if base == 16 && bits <= 8 {
		d := "0123456789abcdef"
		if verb == 'X' {
			d = "0123456789ABCDEF"
		}
		if u < 16 {
			s = string([]byte{d[u]})
		} else {
			s = string([]byte{d[u>>4], d[u&15]})
		}
	} else {
		if neg && base == 10 {
			return strconv.FormatInt(int64(u), 10), true
		}
		if neg {
			u = -u
		}
		s = strconv.FormatUint(u, base)
		if verb == 'X' {
			sym.Unsupported("%X of a wide integer")
		}
		if neg {
			s = "-" + s
		}
	}
	return s, true
}

func format1(verb byte, prec int, plus, sharp bool, a any) (string, bool) {
	if a == nil {
		if verb == 'v' {
			return "<nil>", true
		}
		return "%!" + string([]byte{verb}) + "(<nil>)", true
	}
	if verb == 'T' {
		return sym.TypeName(a), true
	}
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		switch x := a.(type) {
		case error:
			a = x.Error()
		case stringer:
			a = x.String()
		}
	}
	if b, ok := a.([]byte); ok && verb != 'v' && verb != 'd' {
		a = string(b)
	}
	b := sym.Basic(a)
	switch x := b.(type) {
	case string:
		if prec >= 0 && prec < len(x) {
			x = x[:prec]
		}
		switch {
		case verb == 'q' || verb == 'v' && sharp:
			return strconv.Quote(x), true
		case verb == 'v' || verb == 's':
			return x, true
		case verb == 'x':
			return hexOf(x, false), true
		case verb == 'X':
			return hexOf(x, true), true
		}
	case bool:
		if verb == 't' || verb == 'v' {
			if x {
				return "true", true
			}
			return "false", true
		}
	case int:
		return formatInt(verb, x < 0, uint64(x), 64)
	case int8:
		return formatInt(verb, x < 0, uint64(x), 8)
	case int16:
		return formatInt(verb, x < 0, uint64(x), 16)
	case int32:
		return formatInt(verb, x < 0, uint64(x), 32)
	case int64:
		return formatInt(verb, x < 0, uint64(x), 64)
	case uint:
		return formatInt(verb, false, uint64(x), 64)
	case uint8:
		return formatInt(verb, false, uint64(x), 8)
	case uint16:
		return formatInt(verb, false, uint64(x), 16)
	case uint32:
		return formatInt(verb, false, uint64(x), 32)
	case uint64:
		return formatInt(verb, false, x, 64)
	case float32:
		return formatFloat(verb, float64(x), prec, 32)
	case float64:
		return formatFloat(verb, x, prec, 64)
	}
	return "", false
}

func formatFloat(verb byte, f float64, prec, bits int) (string, bool) {
	switch verb {
	case 'v':
		verb = 'g'
	case 'F':
		verb = 'f'
	}
	switch verb {
	case 'f', 'e':
		if prec < 0 {
			prec = 6
		}
	case 'g':
	default:
		return "", false
	}
	return strconv.FormatFloat(f, verb, prec, bits), true
}

//verif:replace fmt.Sprintf
func Sprintf(format string, args ...any) string {
	out := ""
	ai := 0
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		j++
		zero, minus, plus, sharp := false, false, false, false
		for ; j < len(format); j++ {
			c := format[j]
			if c == '0' {
				zero = true
			} else if c == '-' {
				minus = true
			} else if c == '+' {
				plus = true
			} else if c == '#' {
				sharp = true
			} else {
				break
			}
		}
		width, prec := 0, -1
		for j < len(format) && isNumber(format[j]) {
			width = width*10 + int(format[j]-'0')
			j++
		}
		if j < len(format) && format[j] == '.' {
			prec = 0
			j++
			for j < len(format) && isNumber(format[j]) {
				prec = prec*10 + int(format[j]-'0')
				j++
			}
		}
		if j >= len(format) {
			return out + "%!(NOVERB)"
		}
		verb := format[j]
		i = j + 1
		if verb == '%' {
			out += "%"
			continue
		}
		if ai >= len(args) {
			out += "%!" + string([]byte{verb}) + "(MISSING)"
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		if verb == '[' || verb == '*' {
			sym.Unsupported("fmt verb " + format)
		}
		if b, ok := args[ai].(byte); ok && (verb == 'x' || verb == 'X') && width == 2 && zero && !minus && !plus && !sharp && prec < 0 {
			d := "0123456789abcdef"
			if verb == 'X' {
				d = "0123456789ABCDEF"
			}
			out += string([]byte{d[b>>4], d[b&15]})
			ai++
			continue
		}
		s, ok := format1(verb, prec, plus, sharp, args[ai])
		if !ok {
			sym.Unsupported("fmt " + format + " of " + sym.TypeName(args[ai]))
		}
		ai++
		if width > 0 {
			s = pad(s, width, zero, minus)
		}
		out += s
	}
	if ai < len(args) {
		out += "%!(EXTRA)"
	}
	return out
}

//verif:replace fmt.Errorf
func Errorf(format string, args ...any) error {
	msg := Sprintf(format, args...)
	ai := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (isNumber(format[i]) || format[i] == '.' || format[i] == '+' || format[i] == '#' || format[i] == '-') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) {
			if e, ok := args[ai].(error); ok {
				return &wrapErr{msg, e}
			}
		}
		ai++
	}
	return errors.New(msg)
}

//verif:replace fmt.Sprint
func Sprint(args ...any) string {
	out := ""
	for i, a := range args {
		s, ok := format1('v', -1, false, false, a)
		if !ok {
			sym.Unsupported("fmt.Sprint of " + sym.TypeName(a))
		}
		if i > 0 {
			_, s1 := sym.Basic(args[i-1]).(string)
			_, s2 := sym.Basic(a).(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += s
	}
	return out
}

//verif:replace fmt.Sprintln
func Sprintln(args ...any) string {
	out := ""
	for i, a := range args {
		s, ok := format1('v', -1, false, false, a)
		if !ok {
			sym.Unsupported("fmt.Sprintln of " + sym.TypeName(a))
		}
		if i > 0 {
			out += " "
		}
		out += s
	}
	return out + "\n"
}

//verif:replace fmt.Fprintf
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}

//verif:replace fmt.Fprint
func Fprint(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprint(args...))) }

//verif:replace fmt.Fprintln
func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprintln(args...))) }

//verif:replace fmt.Appendf
func Appendf(b []byte, format string, args ...any) []byte {
	return append(b, Sprintf(format, args...)...)
}

//verif:replace fmt.Println
func Println(args ...any) (int, error) { return 0, nil }

//verif:replace fmt.Printf
func Printf(format string, args ...any) (int, error) { return 0, nil }
