package sched

import "unsafe"

func getg() unsafe.Pointer

// goidOffset is where a goroutine has its number, or 0 if unknown. It is searched for, in
// several goroutines.
var goidOffset = func() uintptr {
	var found map[uintptr]int = map[uintptr]int{}
	const n = 20
	for range n {
		done := make(chan bool)
		go func() {
			id := slowGoid()
			g := getg()
			for off := uintptr(64); off < 320; off += 8 {
				if *(*int64)(unsafe.Add(g, off)) == id {
					found[off]++
				}
			}
			done <- true
		}()
		<-done
	}
	for off, k := range found {
		if k == n {
			return off
		}
	}
	return 0
}()

func goid() int64 {
	if goidOffset != 0 {
		return *(*int64)(unsafe.Add(getg(), goidOffset))
	}
	return slowGoid()
}
