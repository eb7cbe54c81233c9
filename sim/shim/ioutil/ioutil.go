// Package ioutil stands in for the standard package in instrumented code.
package ioutil

import (
	stdos "os"

	"verif.local/sim/shim/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm stdos.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pat string) (*os.File, error) { return os.CreateTemp(dir, pat) }
