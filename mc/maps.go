package mc

import (
	"cmp"
	"fmt"
	"slices"
)

// RangeMap replaces ranging over a map: a deterministic, unsorted order by default, and
// (Cfg.MapOrder) a recorded choice of other orders.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			sortKeys(keys)
			permute(keys)
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok && k == k {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	}
	type kv struct {
		s string
		k K
	}
	tmp := make([]kv, len(keys))
	for i, k := range keys {
		tmp[i] = kv{fmt.Sprintf("%+v", k), k}
	}
	slices.SortStableFunc(tmp, func(a, b kv) int { return cmp.Compare(a.s, b.s) })
	for i := range tmp {
		keys[i] = tmp[i].k
	}
}

var perms3 = [6][3]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}

func permute[K any](keys []K) {
	if S == nil {
		return
	}
	n := len(keys)
	if !S.cfg.MapOrder {
		// the one order used is neither ascending nor descending (two: descending): 5 1 3 4 2 0
		a := append([]K{}, keys...)
		for i, j := n-1, 0; i >= 0; i -= 2 {
			keys[j] = a[i]
			if i > 0 {
				keys[n-1-j] = a[i-1]
			}
			j++
		}
		if n > 3 {
			keys[1], keys[n-2] = keys[n-2], keys[1]
		}
		return
	}
	switch {
	case n == 2:
		if S.choose(KMap, 2, S.cfg.MapCost) == 1 {
			keys[0], keys[1] = keys[1], keys[0]
		}
	case n == 3:
		p := perms3[S.choose(KMap, 6, S.cfg.MapCost)]
		a := [3]K{keys[0], keys[1], keys[2]}
		for i := range p {
			keys[i] = a[p[i]]
		}
	default:
		switch S.choose(KMap, 3, S.cfg.MapCost) {
		case 1:
			slices.Reverse(keys)
		case 2:
			h := n / 2
			t := append(append([]K{}, keys[h:]...), keys[:h]...)
			copy(keys, t)
		}
	}
}
