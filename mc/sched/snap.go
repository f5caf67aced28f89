package sched

import (
	"reflect"
	"strings"
	"unsafe"
)

// RepoPrefix is the import path prefix of the code under test.
const RepoPrefix = "github.com/Eyevinn/dash-mpd"

type variable struct {
	name string
	v    reflect.Value
}

var (
	vars  []variable
	onces []*Once
)

// Reg registers a package-level variable of the code under test.
func Reg(name string, p any) { vars = append(vars, variable{name, reflect.ValueOf(p).Elem()}) }

func snapOnce(o *Once) { onces = append(onces, o) }

var cold func()

// Cold notes the present state of all registered variables as the one that the
// process starts with; the instrumented packages call it when they are
// initialized.
func Cold() { cold = Snapshot() }

// Restore brings the variables back to the state noted by Cold.
func Restore() {
	if cold != nil {
		cold()
	}
}

// Vars returns the number of registered variables.
func Vars() int { return len(vars) }

// Snapshot returns a function that brings all registered variables back to
// their present state, including what they refer to as far as the code under
// test can change it.
func Snapshot() func() {
	s := &snapshot{seen: map[unsafe.Pointer]bool{}}
	for _, x := range vars {
		s.value(x.v)
	}
	for _, o := range onces {
		s.value(reflect.ValueOf(o).Elem())
	}
	return func() {
		for i := len(s.undo) - 1; i >= 0; i-- {
			s.undo[i]()
		}
	}
}

type snapshot struct {
	seen map[unsafe.Pointer]bool
	undo []func()
}

func repoType(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, RepoPrefix) || strings.HasPrefix(p, "verifmc/s")
}

// plain reports whether values of the type hold no references.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return false
	}
	return true
}

// value saves an addressable value.
func (s *snapshot) value(v reflect.Value) {
	t := v.Type()
	v = reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).Elem()
	saved := reflect.New(t).Elem()
	saved.Set(v)
	s.undo = append(s.undo, func() { v.Set(saved) })
	s.refs(v)
}

// refs saves what a value refers to.
func (s *snapshot) refs(v reflect.Value) {
	t := v.Type()
	if plain(t) || t.Name() != "" && !repoType(t) {
		return
	}
	if t.PkgPath() == "verifmc/satomic" {
		if l := v.Addr().MethodByName("Load"); l.IsValid() {
			s.refs(l.Call(nil)[0])
		}
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			s.refs(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.refs(v.Index(i))
		}
	case reflect.Pointer:
		if v.IsNil() || s.seen[v.UnsafePointer()] || t.Elem().Name() != "" && !repoType(t.Elem()) {
			return
		}
		s.seen[v.UnsafePointer()] = true
		s.value(v.Elem())
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Pointer && repoType(e.Type().Elem()) {
			s.refs(e)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := reflect.ValueOf(v.Interface())
		keys := m.MapKeys()
		vals := make([]reflect.Value, len(keys))
		for i, k := range keys {
			vals[i] = m.MapIndex(k)
			if !plain(t.Elem()) {
				if e := vals[i]; e.Kind() == reflect.Pointer || e.Kind() == reflect.Interface {
					s.refs(e)
				}
			}
		}
		cmp := t.Elem().Comparable()
		calls := 0
		s.undo = append(s.undo, func() {
			calls++
			if m.Len() == len(keys) && len(keys) > 100 && calls%32 != 0 {
				return // large tables are looked through now and then only
			}
			if cmp && m.Len() == len(keys) {
				same := true
				for i, k := range keys {
					if x := m.MapIndex(k); !x.IsValid() || !x.Equal(vals[i]) {
						same = false
						break
					}
				}
				if same {
					return
				}
			}
			m.Clear()
			for i, k := range keys {
				m.SetMapIndex(k, vals[i])
			}
		})
	}
}
