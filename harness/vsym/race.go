package vsym

import (
	"os"
	"sync"
)

func freeze()        {}
func thaw()          {}
func parallel() bool { return os.Getenv("VSYM_RACE") != "" }

// Concurrently runs f as if several goroutines did: everything that exists when
// it is called is shared memory, which f must not write to without
// synchronisation. f uses no function of this package except Assert.
func Concurrently(f func()) {
	freeze()
	if parallel() {
		together(f)
	} else {
		f()
	}
	thaw()
}

func together(f func()) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopT); !ok {
						panic(e)
					}
				}
			}()
			for j := 0; j < 50; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}
