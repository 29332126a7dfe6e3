package main

// Slice and interface headers reached through converted pointers.

import (
	"go/types"
	"strings"
)

// unconv strips pointer conversions.
func unconv(t *Term) *Term {
	for t.isOp("convert") {
		t = t.Args[0]
	}
	return t
}

// pointee is the type of the variable an address refers to, if known.
func pointee(a *Term) types.Type {
	switch {
	case a.isOp("obj") && strings.HasPrefix(a.S, "alloc"), a.isOp("fld"), a.isOp("idx"):
		return a.T
	case a.K == KSym && a.T != nil:
		if p, ok := under(a.T).(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// headerShape: T is a struct of n machine words (the shape of a slice or interface header).
func headerShape(T types.Type, n int) bool {
	s, ok := under(T).(*types.Struct)
	if !ok || s.NumFields() != n {
		return false
	}
	for i := 0; i < n; i++ {
		switch u := under(s.Field(i).Type()).(type) {
		case *types.Pointer:
		case *types.Basic:
			switch u.Kind() {
			case types.UnsafePointer, types.Uintptr, types.Int:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// slicePtr is the address of the first element behind a slice.
func slicePtr(s *Term) *Term {
	switch {
	case s.isOp("hdr"):
		return s.Args[0]
	case s == tNil:
		return tNil
	}
	arr, lo := arrOf(s)
	if arr.isOp("arr") {
		if arr.Args[0].isOp("hdr") && lo == Int(0) {
			return arr.Args[0].Args[0]
		}
		arr = arr.Args[0]
	}
	return Op("data", "", nil, arr, lo)
}

// headerWord resolves the address of a word of a header: the variable it is a header of, and which word.
func (s *State) headerWord(addr *Term) (a *Term, i int, slice bool) {
	if !addr.isOp("fld") || !addr.Args[0].isOp("convert") {
		return nil, 0, false
	}
	a = unconv(addr.Args[0])
	T, _ := addr.X.(types.Type)
	P := pointee(a)
	if T == nil || P == nil {
		return nil, 0, false
	}
	switch under(P).(type) {
	case *types.Slice:
		if headerShape(T, 3) {
			return a, int(addr.S[0] - '0'), true
		}
	case *types.Interface:
		if headerShape(T, 2) {
			return a, int(addr.S[0] - '0'), false
		}
	}
	return nil, 0, false
}

func (s *State) loadHeader(addr *Term, T types.Type) *Term {
	if addr.isOp("convert") {
		// a variable read as another type
		a := unconv(addr)
		P := pointee(a)
		sl, ok := under(T).(*types.Slice)
		if P == nil || !ok {
			return nil
		}
		if q, ok := under(P).(*types.Slice); ok {
			if types.Identical(sl.Elem(), q.Elem()) {
				return s.load(a, P)
			}
			cur := s.load(a, P)
			return Op("hdr", "", T, slicePtr(cur), Len(cur), capOf(cur))
		}
		if headerShape(P, 3) {
			st := under(P).(*types.Struct)
			var w [3]*Term
			for i := range w {
				w[i] = unconv(s.load(FieldAddrT(a, i, P), st.Field(i).Type()))
			}
			return Op("hdr", "", T, w[0], w[1], w[2])
		}
		return nil
	}
	a, i, slice := s.headerWord(addr)
	if a == nil {
		return nil
	}
	cur := s.load(a, pointee(a))
	if slice {
		switch i {
		case 0:
			return slicePtr(cur)
		case 1:
			return Len(cur)
		case 2:
			return capOf(cur)
		}
		return nil
	}
	if i == 1 {
		if cur.isOp("iface") {
			return cur.Args[0]
		}
		return Op("ifdata", "", T, cur)
	}
	return nil
}

func (s *State) storeHeader(addr, v *Term) bool {
	a, i, slice := s.headerWord(addr)
	if a == nil || !slice {
		return false
	}
	P := pointee(a)
	cur := s.load(a, P)
	w := []*Term{slicePtr(cur), Len(cur), capOf(cur)}
	w[i] = unconv(v)
	s.store(a, Op("hdr", "", P, w...), P)
	return true
}
