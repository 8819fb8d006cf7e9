// Feeds recorded inputs to the Go caller of the C interface and compares its verdicts.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"sync"

	"github.com/oasisprotocol/oasis-cbor/difffuzz"
)

func call(data []byte) (verdict int, crash interface{}) {
	defer func() {
		if r := recover(); r != nil {
			crash = r
		}
	}()
	if err := difffuzz.CborFromSlice(data); err != nil {
		return 1, nil
	}
	return 0, nil
}

func main() {
	all, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var wants []int
	var inputs [][]byte
	for len(all) > 0 {
		n := int(binary.LittleEndian.Uint32(all[1:5]))
		wants = append(wants, int(all[0]))
		inputs = append(inputs, all[5:5+n])
		all = all[5+n:]
	}
	var mu sync.Mutex
	failed, accepted := 0, 0
	report := func(i int, how, what string) {
		mu.Lock()
		defer mu.Unlock()
		failed++
		if failed <= 20 {
			b := inputs[i]
			if len(b) > 300 {
				b = b[:300]
			}
			fmt.Printf("FAIL %d %s: %s for %x (%d bytes)\n", i, how, what, b, len(inputs[i]))
		}
	}
	check := func(i int, how string, b []byte) {
		v, crash := call(b)
		if crash != nil {
			report(i, how, fmt.Sprintf("panic: %v", crash))
		} else if v != wants[i] {
			report(i, how, fmt.Sprintf("verdict %d instead of %d", v, wants[i]))
		}
	}
	check(0, "nil", nil)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(inputs); i += 8 {
				// As a part of a larger slice, and in memory of its own.
				check(i, "part", inputs[i])
				b := make([]byte, len(inputs[i]))
				copy(b, inputs[i])
				check(i, "own", b)
				if string(b) != string(inputs[i]) {
					report(i, "own", "the input changed")
				}
				if i%2000 == 0 {
					runtime.GC()
				}
			}
		}(w)
	}
	wg.Wait()
	for _, w := range wants {
		if w == 0 {
			accepted++
		}
	}
	fmt.Printf("DONE inputs=%d calls=%d accepted=%d failed=%d\n", len(inputs), 2*len(inputs)+1, accepted, failed)
}
