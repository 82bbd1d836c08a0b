// Package rnd replaces the process' random source before any other package can
// take a copy of it, so that the harness decides what the code under test draws.
// (Package paths are initialised in dependency order and then by path; this one
// has no dependencies on the code under test and sorts before it.)
package rnd

import (
	"crypto/rand"
	"errors"
	"io"
	mrand "math/rand"
	"sync"
)

// ErrDry is what the source returns when it is told to fail.
var ErrDry = errors.New("random source ran dry")

// Source is the controlled random source.
type Source struct {
	mu    sync.Mutex
	real  io.Reader
	on    bool
	prng  *mrand.Rand
	Log   []byte // every byte delivered since Reset
	Chunk int    // most bytes delivered by one read, 0 = unlimited
	limit int    // bytes left until failure, -1 = unlimited
	Hit   bool   // the failure happened
	EOF   bool   // fail with io.EOF instead of ErrDry
	Gate  func() // called before every read
	Free  bool   // hand out real randomness without any bookkeeping
}

// S is the source behind crypto/rand.Reader.
var S = &Source{real: rand.Reader, limit: -1}

func init() { rand.Reader = S }

// Reset starts a new deterministic stream.
func (s *Source) Reset(seed int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.on = true
	s.prng = mrand.New(mrand.NewSource(seed))
	s.Log = nil
	s.Chunk = 0
	s.limit = -1
	s.Hit = false
	s.EOF = false
	s.Gate = nil
}

// FailAfter lets the source fail once n more bytes were delivered; -1 never.
func (s *Source) FailAfter(n int, eof bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.limit = n
	s.Hit = false
	s.EOF = eof
}

// Off hands out real randomness again.
func (s *Source) Off() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.on = false
}

// Delivered returns a copy of the log.
func (s *Source) Delivered() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), s.Log...)
}

// Read implements io.Reader.
func (s *Source) Read(p []byte) (int, error) {
	if s.Free {
		return s.real.Read(p)
	}
	s.mu.Lock()
	gate := s.Gate
	s.mu.Unlock()
	if gate != nil {
		gate()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.on {
		return s.real.Read(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	fail := false
	if s.limit >= 0 && n > s.limit {
		n = s.limit
		fail = true
	}
	for i := 0; i < n; i++ {
		p[i] = byte(s.prng.Intn(256))
	}
	s.Log = append(s.Log, p[:n]...)
	if s.limit >= 0 {
		s.limit -= n
	}
	if fail {
		s.Hit = true
		if s.EOF {
			return n, io.EOF
		}
		return n, ErrDry
	}
	return n, nil
}
