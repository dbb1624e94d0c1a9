package main

import "fmt"

// mapOrders runs f under every choice of map iteration orders: the default one
// (every iteration starts at its first slot) and every vector of start offsets
// with up to dev iterations that start elsewhere.  Maps of up to eight entries
// have eight starting points, which give all their iteration orders.  f must
// not itself iterate over maps.
func mapOrders(c *Ctx, dev int, run func(), check func() string) string {
	var vec []uint64
	var again func() (string, []uint64)
	once := func() (string, []uint64) {
		for i := range mapOff {
			mapOff[i] = 0
			mapUsed[i] = 0
		}
		copy(mapOff[:], vec)
		mapN = 0
		mapOn = true
		func() {
			defer func() { mapOn = false }()
			run()
		}()
		n := mapN
		if mapKey == 0 && n > 0 {
			// a map that is iterated over and over (a table): one choice for all its iterations
			cnt := map[uintptr]int{}
			for i := 0; i < n && i < len(mapAddr); i++ {
				cnt[mapAddr[i]]++
			}
			for a, k := range cnt {
				if k > 12 && (mapKey == 0 || k > cnt[mapKey]) {
					mapKey = a
				}
			}
			if mapKey != 0 {
				vec = nil
				return again()
			}
		}
		if n > len(mapUsed) {
			n = len(mapUsed)
		}
		used := append([]uint64(nil), mapUsed[:n]...)
		c.Trans(1)
		c.Alive()
		return check(), used
	}
	again = once
	var rec func(from, left int) string
	rec = func(from, left int) string {
		m, used := once()
		if m != "" || left == 0 || !mapControl {
			return m
		}
		c.Outcome(sprint(used))
		base := append([]uint64(nil), vec...)
		for i := from; i < len(used); i++ {
			if used[i] < 2 {
				continue
			}
			for o := uint64(1); o < 8; o++ {
				vec = append([]uint64(nil), base...)
				for len(vec) <= i {
					vec = append(vec, 0)
				}
				vec[i] = o
				if m := rec(i+1, left-1); m != "" {
					return m + " (map iteration order " + sprint(vec) + ")"
				}
			}
		}
		vec = base
		return ""
	}
	mapKeyOff = 0
	if m := rec(0, dev); m != "" {
		return m
	}
	if mapKey != 0 && mapControl {
		for mapKeyOff = 1; mapKeyOff < 8; mapKeyOff++ {
			vec = nil
			if m := rec(0, 0); m != "" {
				return fmt.Sprintf("%s (the table iterated from slot %d)", m, mapKeyOff)
			}
		}
		mapKeyOff = 0
	}
	return ""
}
