//go:build !linux

package main

import "errors"

type staticSyms struct {
	names []string
	size  int
}

func staticData() func() (*staticSyms, error) {
	return func() (*staticSyms, error) { return &staticSyms{}, errors.New("not on this system") }
}
func (s *staticSyms) changed() string { return "" }
