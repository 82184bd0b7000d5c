//go:build !faketime

package kit

const fakeTime = false
