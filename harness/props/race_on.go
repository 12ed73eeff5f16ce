//go:build race

package props

import "runtime"

// races is the number of data races reported so far.
func races() int { return runtime.RaceErrors() }
