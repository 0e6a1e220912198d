package main

import (
	"go/types"
	"strings"
)

const modPath = "github.com/sa6mwa/krypto431"

func under(t types.Type) types.Type { return t.Underlying() }

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// opaque struct types are treated as scalar values.
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), "github.com/sa6mwa/") && !strings.Contains(p.Path(), "/blox") {
		return false
	}
	// external: opaque if any field unexported
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			return true
		}
	}
	return p.Path() != "github.com/nknorg/encrypted-stream"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// normalised element type name so that identical memory is used for identical types
func memTypeName(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UntypedNil:
			return "nil"
		}
		return b.Name()
	}
	return shortType(t)
}

// scalar leaf: SMT sort and memory key.
func scalar(t types.Type) (srt, key string, ok bool) {
	if opaqueStruct(t) {
		return SInt, "o:" + shortType(t), true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, "bool", true
		case u.Info()&types.IsString != 0:
			return SStr, "str", true
		case u.Info()&types.IsInteger != 0:
			return SInt, memTypeName(u), true
		case u.Info()&types.IsFloat != 0:
			return SReal, "real", true
		}
		return SInt, "misc:" + u.Name(), true
	case *types.Slice:
		return SSlc, "slc:" + memTypeName(u.Elem()), true
	case *types.Pointer:
		return SPtr, "ptr:" + memTypeName(u.Elem()), true
	case *types.Interface:
		return SInt, "ifc:" + shortType(t), true
	case *types.Map, *types.Chan, *types.Signature:
		return SInt, "ref:" + shortType(t), true
	case *types.Tuple:
		return "", "", false
	}
	return "", "", false
}

type leaf struct {
	off  int
	typ  types.Type
	path []int
	name string
}

func sizeOf(t types.Type) int {
	if _, _, ok := scalar(t); ok {
		return 1
	}
	switch u := under(t).(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
		if n == 0 {
			n = 1
		}
		return n
	case *types.Array:
		return sizeOf(u.Elem())
	}
	return 1
}

func leavesOf(t types.Type) []leaf {
	var out []leaf
	var rec func(t types.Type, off int, path []int, name string)
	rec = func(t types.Type, off int, path []int, name string) {
		if _, _, ok := scalar(t); ok {
			out = append(out, leaf{off, t, append([]int{}, path...), name})
			return
		}
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				rec(ft, off, append(path, i), name+"."+u.Field(i).Name())
				off += sizeOf(ft)
			}
		case *types.Array:
			rec(u.Elem(), off, path, name+"[]")
		}
	}
	rec(t, 0, nil, "")
	return out
}

func fieldOff(s *types.Struct, i int) int {
	off := 0
	for j := 0; j < i; j++ {
		off += sizeOf(s.Field(j).Type())
	}
	return off
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	}
	return
}

func wrapBits(t types.Type) (bits uint, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return // int, int64: mathematical
}
