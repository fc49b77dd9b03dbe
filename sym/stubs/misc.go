//go:build go1.22

package verifstub

import (
	"crypto/rand"
)

// The system's random source gives other bytes every time, which ones does not matter: harnesses
// for which it does install their own reader.
type randReader struct{}

var randCount byte

func (randReader) Read(b []byte) (int, error) {
	for i := range b {
		randCount++
		b[i] = randCount
	}
	return len(b), nil
}

func init() { rand.Reader = randReader{} }

//verif:replace errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}
