//go:build !endian

package scen

const haveEndian = false

func setLittleEndian(v bool) {}
