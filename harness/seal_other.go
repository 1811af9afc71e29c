//go:build !(linux && amd64)

package main

import "errors"

func seal() error { return errors.New("not on this platform") }
