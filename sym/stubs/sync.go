//go:build go1.22

package verifstub

import "sync"

// A sync.Map keeps its entries beside it, behind a lock: what was stored happens before what loads
// it, as the real one has it.
type syncMap struct {
	mu   sync.RWMutex
	m    map[interface{}]interface{}
	keys []interface{}
}

var syncMaps = map[*sync.Map]*syncMap{}

func syncMapOf(m *sync.Map) *syncMap {
	s := syncMaps[m]
	if s == nil {
		s = &syncMap{m: map[interface{}]interface{}{}}
		syncMaps[m] = s
	}
	return s
}

func (s *syncMap) put(k, v interface{}) {
	if _, ok := s.m[k]; !ok {
		s.keys = append(s.keys, k)
	}
	s.m[k] = v
}

func (s *syncMap) drop(k interface{}) {
	delete(s.m, k)
	var keys []interface{}
	for _, x := range s.keys {
		if x != k {
			keys = append(keys, x)
		}
	}
	s.keys = keys
}

//verif:replace (*sync.Map).Load
func syncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	s.mu.RLock()
	v, ok := s.m[k]
	s.mu.RUnlock()
	return v, ok
}

//verif:replace (*sync.Map).Store
func syncMapStore(m *sync.Map, k, v interface{}) {
	s := syncMapOf(m)
	s.mu.Lock()
	s.put(k, v)
	s.mu.Unlock()
}

//verif:replace (*sync.Map).LoadOrStore
func syncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	old, ok := s.m[k]
	if !ok {
		s.put(k, v)
		old = v
	}
	s.mu.Unlock()
	return old, ok
}

//verif:replace (*sync.Map).LoadAndDelete
func syncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	old, ok := s.m[k]
	if ok {
		s.drop(k)
	}
	s.mu.Unlock()
	return old, ok
}

//verif:replace (*sync.Map).Delete
func syncMapDelete(m *sync.Map, k interface{}) { syncMapLoadAndDelete(m, k) }

//verif:replace (*sync.Map).Swap
func syncMapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	old, ok := s.m[k]
	s.put(k, v)
	s.mu.Unlock()
	return old, ok
}

//verif:replace (*sync.Map).CompareAndSwap
func syncMapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	s := syncMapOf(m)
	s.mu.Lock()
	x, ok := s.m[k]
	ok = ok && x == old
	if ok {
		s.put(k, v)
	}
	s.mu.Unlock()
	return ok
}

//verif:replace (*sync.Map).CompareAndDelete
func syncMapCompareAndDelete(m *sync.Map, k, old interface{}) bool {
	s := syncMapOf(m)
	s.mu.Lock()
	x, ok := s.m[k]
	ok = ok && x == old
	if ok {
		s.drop(k)
	}
	s.mu.Unlock()
	return ok
}

//verif:replace (*sync.Map).Clear
func syncMapClear(m *sync.Map) {
	s := syncMapOf(m)
	s.mu.Lock()
	s.m, s.keys = map[interface{}]interface{}{}, nil
	s.mu.Unlock()
}

//verif:replace (*sync.Map).Range
func syncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	s := syncMapOf(m)
	s.mu.RLock()
	keys := append([]interface{}(nil), s.keys...)
	s.mu.RUnlock()
	for _, k := range keys {
		v, ok := syncMapLoad(m, k)
		if ok && !f(k, v) {
			return
		}
	}
}

// A sync.Cond keeps the channels of the goroutines that wait for it.
var conds = map[*sync.Cond][]chan struct{}{}

//verif:replace (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	ch := make(chan struct{})
	conds[c] = append(conds[c], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//verif:replace (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	if l := conds[c]; len(l) > 0 {
		conds[c] = l[1:]
		close(l[0])
	}
}

//verif:replace (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	l := conds[c]
	conds[c] = nil
	for _, ch := range l {
		close(ch)
	}
}
