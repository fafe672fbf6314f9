package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Sort is the verifier's view of a type: its SMT sort plus what the
// specification language needs to resolve fields and elements.
type Sort struct {
	K      byte // I int, B bool, R real, Q sequence, S struct, P pointer, M map, H heap slice, F iface/func/other (Int), U uninterpreted, A array (spec only)
	Elem   *Sort
	Key    *Sort
	Name   string
	Fields []SField
	Go     types.Type
	Bits   int // for small unsigned ints
	ArrLen int64
}

// SField is one field of a struct sort.
type SField struct {
	Name string
	S    *Sort
	Go   types.Type
}

var (
	sInt  = &Sort{K: 'I'}
	sBool = &Sort{K: 'B'}
	sReal = &Sort{K: 'R'}
	sRef  = &Sort{K: 'F'}
	sNil  = &Sort{K: 'N'}
	sTrie = &Sort{K: 'U', Name: "Trie"}
)

func seqOf(e *Sort) *Sort { return &Sort{K: 'Q', Elem: e} }

var (
	sSeqInt = seqOf(sInt)
)

// SMT is the SMT-LIB name of the sort.
func (s *Sort) SMT() string {
	switch s.K {
	case 'I', 'P', 'M', 'F', 'N':
		return "Int"
	case 'B':
		return "Bool"
	case 'R':
		return "Real"
	case 'Q':
		return "Sq_" + s.Elem.id()
	case 'S':
		return "T_" + s.Name
	case 'H':
		return "Slc"
	case 'U':
		return s.Name
	case 'A':
		return "(Array " + s.Key.SMT() + " " + s.Elem.SMT() + ")"
	}
	panic("sort " + string(s.K))
}

// id is a name fragment for derived symbols.
func (s *Sort) id() string {
	switch s.K {
	case 'A':
		return "Arr" + s.Key.id() + s.Elem.id()
	default:
		return s.SMT()
	}
}

func (s *Sort) same(t *Sort) bool {
	if s.K == 'N' {
		return t.K == 'P' || t.K == 'M' || t.K == 'F' || t.K == 'N' || t.K == 'Q' || t.K == 'H'
	}
	if t.K == 'N' {
		return t.same(s)
	}
	return s.SMT() == t.SMT()
}

// sorts maps Go types to sorts.
type sorts struct {
	heapElem map[string]bool // element types (types.TypeString with package names) kept in the heap
	structs  map[string]*Sort
	order    []*Sort
	seqs     map[string]*Sort
	seqOrder []*Sort
}

func newSorts() *sorts {
	return &sorts{heapElem: map[string]bool{}, structs: map[string]*Sort{}, seqs: map[string]*Sort{}}
}

func qual(p *types.Package) string { return p.Name() }

func tstr(t types.Type) string { return types.TypeString(t, qual) }

func (ss *sorts) of(t types.Type) *Sort {
	s := ss.of1(t)
	ss.note(s)
	return s
}

func (ss *sorts) note(s *Sort) {
	switch s.K {
	case 'Q':
		ss.note(s.Elem)
		if ss.seqs[s.SMT()] == nil {
			ss.seqs[s.SMT()] = s
			ss.seqOrder = append(ss.seqOrder, s)
		}
	case 'A':
		ss.note(s.Elem)
		ss.note(s.Key)
	}
}

func (ss *sorts) of1(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return sBool
		case i&types.IsInteger != 0:
			switch u.Kind() {
			case types.Uint8:
				return &Sort{K: 'I', Bits: 8, Go: t}
			case types.Uint16:
				return &Sort{K: 'I', Bits: 16, Go: t}
			}
			return &Sort{K: 'I', Go: t}
		case i&types.IsFloat != 0:
			return &Sort{K: 'R', Go: t}
		case i&types.IsString != 0:
			return &Sort{K: 'Q', Elem: sInt, Go: t}
		case u.Kind() == types.UntypedNil:
			return sNil
		}
		return &Sort{K: 'F', Go: t}
	case *types.Slice:
		if ss.heapElem[tstr(u.Elem())] {
			return &Sort{K: 'H', Elem: ss.of(u.Elem()), Go: t}
		}
		return &Sort{K: 'Q', Elem: ss.of(u.Elem()), Go: t}
	case *types.Array:
		return &Sort{K: 'Q', Elem: ss.of(u.Elem()), Go: t, ArrLen: u.Len()}
	case *types.Pointer:
		return &Sort{K: 'P', Go: t}
	case *types.Map:
		return &Sort{K: 'M', Go: t, Key: ss.of(u.Key()), Elem: ss.of(u.Elem())}
	case *types.Struct:
		name := mangle(tstr(t))
		if s := ss.structs[name]; s != nil {
			return s
		}
		s := &Sort{K: 'S', Name: name, Go: t}
		ss.structs[name] = s
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.Fields = append(s.Fields, SField{f.Name(), ss.of(f.Type()), f.Type()})
		}
		ss.order = append(ss.order, s)
		return s
	}
	return &Sort{K: 'F', Go: t}
}

// elemOf resolves the pointee sort of a pointer sort.
func (ss *sorts) pointee(s *Sort) *Sort {
	if s.K != 'P' || s.Go == nil {
		return nil
	}
	return ss.of(s.Go.Underlying().(*types.Pointer).Elem())
}

func mangle(s string) string {
	r := strings.NewReplacer(".", "_", "[", "_", "]", "_", "*", "p", "/", "_", " ", "_", "{", "_", "}", "_", ";", "_", ",", "_", "(", "_", ")", "_")
	return r.Replace(s)
}

// zero gives the SMT term of the zero value.
func (ss *sorts) zero(s *Sort) string {
	switch s.K {
	case 'I', 'P', 'M', 'F', 'N':
		return "0"
	case 'B':
		return "false"
	case 'R':
		return "0.0"
	case 'Q':
		if s.ArrLen > 0 {
			return fmt.Sprintf("(rep_%s %s %d)", s.Elem.id(), ss.zero(s.Elem), s.ArrLen)
		}
		return "empty_" + s.Elem.id()
	case 'H':
		return "(mkslc 0 0 0)"
	case 'S':
		if len(s.Fields) == 0 {
			return "mk_" + s.Name
		}
		var b strings.Builder
		b.WriteString("(mk_" + s.Name)
		for _, f := range s.Fields {
			b.WriteString(" " + ss.zero(f.S))
		}
		return b.String() + ")"
	case 'U':
		return "zero_" + s.Name
	}
	panic("zero of " + string(s.K))
}

func (s *Sort) field(n string) (int, *SField) {
	for i := range s.Fields {
		if s.Fields[i].Name == n {
			return i, &s.Fields[i]
		}
	}
	return -1, nil
}
