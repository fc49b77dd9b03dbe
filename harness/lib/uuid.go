//go:build go1.22

package lib

func hex(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func canonical(s string) bool {
	ok := true
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = ok && s[i] == '-'
		} else {
			ok = ok && hex(s[i])
		}
	}
	return ok
}

// UUIDText is true for the four textual forms of RFC 4122.
func UUIDText(s string) bool {
	switch len(s) {
	case 32:
		ok := true
		for i := 0; i < 32; i++ {
			ok = ok && hex(s[i])
		}
		return ok
	case 36:
		return canonical(s)
	case 38:
		return s[0] == '{' && s[37] == '}' && canonical(s[1:37])
	case 45:
		ok := true
		for i := 0; i < 9; i++ {
			c := "urn:uuid:"[i]
			ok = ok && (s[i] == c || c != ':' && s[i] == c-32)
		}
		return ok && canonical(s[9:])
	}
	return false
}
