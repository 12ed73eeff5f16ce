//go:build !race

package props

func races() int { return 0 }
