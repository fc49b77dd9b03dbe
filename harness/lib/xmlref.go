//go:build go1.22

package lib

import (
	"bytes"
	"encoding/xml"
	"io"
)

// Tokens reads a document with the standard library's XML reader. Adjacent texts are one.
func Tokens(doc []byte) ([]xml.Token, error) { return tokens(doc, true) }

// Marked is like Tokens, without the texts between two pieces of markup that are nothing but white space.
func Marked(doc []byte) ([]xml.Token, error) { return tokens(doc, false) }

func tokens(doc []byte, blanks bool) (toks []xml.Token, err error) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	for {
		t, err := d.Token()
		if err == io.EOF {
			return toks, nil
		}
		if err != nil {
			return toks, err
		}
		if c, ok := t.(xml.CharData); ok && !blanks && len(bytes.Trim(c, " \t\r\n")) == 0 {
			continue
		}
		toks = AppendToken(toks, xml.CopyToken(t))
	}
}

// AppendToken adds a token to a list, joining adjacent texts and leaving out processing instructions and comments.
func AppendToken(toks []xml.Token, t xml.Token) []xml.Token {
	switch t := t.(type) {
	case xml.ProcInst, xml.Comment:
		return toks
	case xml.CharData:
		if n := len(toks); n > 0 {
			if last, ok := toks[n-1].(xml.CharData); ok {
				toks[n-1] = append(append(xml.CharData(nil), last...), t...)
				return toks
			}
		}
	}
	return append(toks, t)
}

// SameTokens compares two lists of tokens.
func SameTokens(a, b []xml.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case xml.StartElement:
			y, ok := b[i].(xml.StartElement)
			if !ok || x.Name != y.Name || len(x.Attr) != len(y.Attr) {
				return false
			}
			for j := range x.Attr {
				if x.Attr[j] != y.Attr[j] {
					return false
				}
			}
		case xml.EndElement:
			y, ok := b[i].(xml.EndElement)
			if !ok || x != y {
				return false
			}
		case xml.CharData:
			y, ok := b[i].(xml.CharData)
			if !ok || string(x) != string(y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
