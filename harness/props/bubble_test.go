package props

import (
	"fmt"
	"runtime/debug"
	"testing"
	"testing/synctest"
)

// bubble runs f under a fake clock. A panic of f itself is carried out of the
// bubble; a deadlock of the bubble (every goroutine blocked for good, or
// goroutines left behind when f returned) is reported as a failure.
func bubble(c *C, f func()) {
	var caught any
	var stack []byte
	func() {
		defer func() {
			if r := recover(); r != nil {
				if caught != nil {
					return // the first cause
				}
				panic(failure{fmt.Sprintf("goroutines of the client are stuck or left behind: %v", r)})
			}
		}()
		synctest.Test(c.T, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					caught, stack = r, debug.Stack()
				}
			}()
			f()
		})
	}()
	if caught != nil {
		switch caught.(type) {
		case failure, harnessError:
			panic(caught)
		default:
			panic(failure{fmt.Sprintf("panic: %v\n%s", caught, trimStack(stack))})
		}
	}
}
