//go:build go1.22

package lib

import "os"

// Descriptors is the number of files the process has open.
func Descriptors() int {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(fds)
}

// InDir calls fn with a directory that exists while it runs.
func InDir(fn func(dir string)) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fn(dir)
}
