// Package arand replaces the cryptographic random source of the process with a
// wrapper around it that can be made to fail and that records what it returned.
// It is initialised before the package under test reads the source.
package arand

import (
	"crypto/rand"
	"errors"
	"io"
	"sync"
	"time"
)

type source struct {
	mutex sync.Mutex
	real  io.Reader
	skip  int
	fail  bool
	short bool
	delay time.Duration
	log   [][]byte
}

var src = &source{real: rand.Reader}

func init() { rand.Reader = src }

var errFail = errors.New("random source failed")

func (s *source) Read(p []byte) (int, error) {
	s.mutex.Lock()
	delay := s.delay
	s.mutex.Unlock()
	if delay > 0 {
		time.Sleep(delay)
	}
	s.mutex.Lock()
	defer s.mutex.Unlock()
	if s.fail {
		if s.skip <= 0 {
			if s.short && len(p) > 1 {
				return len(p) / 2, errFail
			}
			return 0, errFail
		}
		s.skip--
	}
	n, err := s.real.Read(p)
	if len(s.log) < 64 {
		s.log = append(s.log, append([]byte(nil), p[:n]...))
	}
	return n, err
}

// Fail makes the source fail after skip further reads.
func Fail(skip int, short bool) {
	src.mutex.Lock()
	src.fail, src.skip, src.short = true, skip, short
	src.mutex.Unlock()
}

// Works makes the source work again.
func Works() {
	src.mutex.Lock()
	src.fail = false
	src.mutex.Unlock()
}

// Delay makes every read take some time.
func Delay(d time.Duration) {
	src.mutex.Lock()
	src.delay = d
	src.mutex.Unlock()
}

// Reset forgets the recorded reads.
func Reset() {
	src.mutex.Lock()
	src.log = nil
	src.mutex.Unlock()
}

// Log returns what was read since the last reset.
func Log() []byte {
	src.mutex.Lock()
	defer src.mutex.Unlock()
	var all []byte
	for _, b := range src.log {
		all = append(all, b...)
	}
	return all
}
