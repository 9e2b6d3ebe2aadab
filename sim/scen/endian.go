//go:build endian

package scen

import "github.com/protolambda/zssz/util/endianness"

const haveEndian = true

var hostEndian = endianness.IsLittleEndian

// setLittleEndian(true) restores what the library found out about this host.
func setLittleEndian(v bool) {
	if v {
		v = hostEndian
	}
	endianness.IsLittleEndian = v
}
