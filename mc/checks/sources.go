package checks

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
)

// script is a reader that delivers data in a prescribed way and counts its calls.
type script struct {
	data  []byte
	cuts  uint64 // bit i set: a read ends after byte i (documents of <=64 bytes)
	chunk int    // otherwise: reads of this size (0: all at once)
	zeros bool   // an empty read before every piece
	eof   bool   // the last piece comes together with io.EOF

	failAt   int // fail once this many bytes are delivered (-1: never)
	failErr  error
	withData bool // the failure comes together with the bytes before it
	once     bool // the failure happens a single time

	pos, reads, closes int
	zeroed, failed     bool
}

var errFault = errors.New("injected read failure")

func (s *script) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.failErr != nil && s.pos >= s.failAt && !(s.once && s.failed) {
		s.failed = true
		return 0, s.failErr
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if s.zeros && !s.zeroed {
		s.zeroed = true
		return 0, nil
	}
	s.zeroed = false
	end := len(s.data)
	if s.chunk > 0 && s.pos+s.chunk < end {
		end = s.pos + s.chunk
	}
	if s.cuts != 0 {
		for i := s.pos; i < end-1; i++ {
			if s.cuts>>uint(i)&1 == 1 {
				end = i + 1
				break
			}
		}
	}
	if s.failErr != nil && s.pos < s.failAt && end > s.failAt {
		end = s.failAt
	}
	if end-s.pos > len(p) {
		end = s.pos + len(p)
	}
	n := copy(p, s.data[s.pos:end])
	s.pos = end
	if s.failErr != nil && s.pos == s.failAt && s.withData && !(s.once && s.failed) {
		s.failed = true
		return n, s.failErr
	}
	if s.pos == len(s.data) && s.eof && s.failErr == nil {
		return n, io.EOF
	}
	return n, nil
}

// scriptCloser is the script as a read-closer.
type scriptCloser struct{ *script }

func (s scriptCloser) Close() error { s.closes++; return nil }

// openUnder counts this process's open descriptors below a directory.
func openUnder(dir string) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range l {
		if t, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && strings.HasPrefix(t, dir+"/") {
			n++
		}
	}
	return n
}

func mustWrite(path string, data []byte) {
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic(err)
	}
}
