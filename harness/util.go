package main

import (
	"io"
	"os"
	"strconv"
	"unicode/utf8"
)

// captureStdout runs f and returns what it printed.
func captureStdout(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(harnessError{err.Error()})
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	func() {
		defer func() {
			os.Stdout = old
			w.Close()
		}()
		f()
	}()
	s := <-done
	r.Close()
	return s
}

// quoteFirst quotes the first n runes of s.
func quoteFirst(s string, n int) string {
	i := 0
	for ; n > 0 && i < len(s); n-- {
		_, w := utf8.DecodeRuneInString(s[i:])
		i += w
	}
	return strconv.Quote(s[:i])
}

func unquoteTag(q string, out *string) error {
	s, err := strconv.Unquote(q)
	*out = s
	return err
}
