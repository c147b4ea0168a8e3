package simrt

import (
	"sort"
)

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

// MapKeys returns the keys of m in an order drawn from the run's environment
// stream: map iteration order is an input of the simulation.
func MapKeys[M ~map[K]E, K ordered, E any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) == 1 {
		return keys
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if isActive() {
		for i := len(keys) - 1; i > 0; i-- {
			j := int(Env() % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// MapOf returns its argument (it keeps the rewritten range statement typed).
func MapOf[M ~map[K]E, K comparable, E any](m M) M { return m }
