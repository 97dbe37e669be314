package mcrt

import (
	"syscall"
	"unsafe"
)

// Histogram counters are tens of megabytes of zeroes, of which an execution
// touches a few words. Inside an execution they come from memory that is given
// back to the kernel afterwards, which is cheaper than clearing it.
var (
	arenaOn   bool
	arenaUsed [][]byte
	arenaFree = map[int][][]byte{}
)

// Counts is make([]int64, n).
func Counts(n int) []int64 {
	if !arenaOn || n < 1<<12 {
		return make([]int64, n)
	}
	var b []byte
	if f := arenaFree[n]; len(f) > 0 {
		b = f[len(f)-1]
		arenaFree[n] = f[:len(f)-1]
	} else {
		var err error
		b, err = syscall.Mmap(-1, 0, n*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return make([]int64, n)
		}
	}
	arenaUsed = append(arenaUsed, b)
	return unsafe.Slice((*int64)(unsafe.Pointer(unsafe.SliceData(b))), n)
}

// recycle gives back what an execution allocated, unless it left goroutines
// behind.
func recycle(leak bool) {
	arenaOn = false
	for _, b := range arenaUsed {
		if leak || syscall.Madvise(b, syscall.MADV_DONTNEED) != nil {
			continue
		}
		arenaFree[len(b)/8] = append(arenaFree[len(b)/8], b)
	}
	arenaUsed = nil
}
