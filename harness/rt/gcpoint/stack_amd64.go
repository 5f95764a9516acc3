package gcpoint

// Stack returns the bounds of the running goroutine's stack: the first two
// words of the runtime's g.
func Stack() (lo, hi uintptr)
