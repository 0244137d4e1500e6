package vsym

func shallow() {}
func normal()  {}

// Levels is how deep to nest: n, or far deeper in a native run, where it is
// the stack that ends.
func Levels(n int) int { return n * 10000 }

// Shallow runs f, during which the depth of calls stays bounded.
func Shallow(f func()) {
	shallow()
	f()
	normal()
}
