package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// Entry is one element of a map being ranged over.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

func (e Entry[K, V]) Ok() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V     { return e.m[e.K] }

// Map returns the elements of m in an order chosen by the world's "map" stream.
func Map[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{m, k})
	}
	Order(len(es), func(i, j int) bool { return less(reflect.ValueOf(es[i].K), reflect.ValueOf(es[j].K)) },
		reflect.Swapper(es))
	return es
}

// MapIter is a loop over a map.
type MapIter[K comparable, V any] struct {
	es []Entry[K, V]
	i  int
}

// MapLoop starts a loop, and gives zero values for its variables.
func MapLoop[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	return &MapIter[K, V]{Map(m), -1}, k, v
}

// Next goes to the next element that is still there.
func (it *MapIter[K, V]) Next() bool {
	for it.i++; it.i < len(it.es); it.i++ {
		if it.es[it.i].Ok() {
			return true
		}
	}
	return false
}

func (it *MapIter[K, V]) K() K { return it.es[it.i].K }
func (it *MapIter[K, V]) V() V { return it.es[it.i].V() }

// Order sorts into a canonical order and then permutes as the simulator decides.
func Order(n int, lessf func(i, j int) bool, swap func(i, j int)) {
	sort.Sort(sorter{n, lessf, swap})
	w := W
	if w == nil {
		return
	}
	if !w.MapShuffle {
		return
	}
	w.Count("fault.maporder")
	for i := n - 1; i > 0; i-- {
		// 0 means "stay in canonical order"
		j := i - w.Uniform("map", i+1)
		swap(i, j)
	}
}

type sorter struct {
	n int
	l func(i, j int) bool
	s func(i, j int)
}

func (s sorter) Len() int           { return s.n }
func (s sorter) Less(i, j int) bool { return s.l(i, j) }
func (s sorter) Swap(i, j int)      { s.s(i, j) }

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprintf("%T %v", a.Interface(), a.Interface()) < fmt.Sprintf("%T %v", b.Interface(), b.Interface())
}
