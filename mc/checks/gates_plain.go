//go:build !verifgate

package checks

const instrumented = false

func setFine(bool) {}

func setSegFine(bool) {}
