//go:build !amd64

package sched

func goid() int64 { return slowGoid() }
