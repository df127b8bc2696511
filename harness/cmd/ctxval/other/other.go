// Package other holds types with the names of others.
package other

type Named struct{ V int }
type Num int
