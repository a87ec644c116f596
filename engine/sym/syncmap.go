package sym

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// syncMap gives identical types one stable key, shared by all workers.
type syncMap struct {
	mu sync.Mutex
	p  map[types.Type]string
	m  typeutil.Map
	n  int
}

func newSyncMap() *syncMap { return &syncMap{p: map[types.Type]string{}} }

func (s *syncMap) get(t types.Type) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if k, ok := s.p[t]; ok {
		return k
	}
	if k := s.m.At(t); k != nil {
		s.p[t] = k.(string)
		return k.(string)
	}
	s.n++
	k := "T" + itoa(s.n)
	s.m.Set(t, k)
	s.p[t] = k
	return k
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}
