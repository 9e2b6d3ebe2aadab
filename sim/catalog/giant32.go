//go:build 386

package catalog

import "reflect"

type M16 struct{}

func (M16) N() uint64 { return 1 << 16 }

type M40 struct{}

func (M40) N() uint64 { return 1 << 40 }

// Giant: there is no room for such values here.
var Giant []reflect.Type
