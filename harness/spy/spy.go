//go:build go1.21

// Package spy keeps copies of what was handed to the code under test and of what it handed out, and tells later
// whether any of it was changed. Off (the default) it does nothing.
package spy

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// On switches it on.
var On bool

type item struct {
	what string
	v    reflect.Value
	deep bool // include what lies between length and capacity
	snap string
}

var held []item

// A is an argument: it returns a copy with spare capacity behind every slice and remembers it.
func A[T any](v T) T {
	if !On {
		return v
	}
	c := Copy(v)
	rv := reflect.ValueOf(&c).Elem()
	held = append(held, item{"argument", rv, true, Snap(rv, true)})
	return c
}

// P is an argument that is passed on as it is (no copy).
func P[T any](v T) T {
	if On {
		rv := reflect.ValueOf(&v).Elem()
		held = append(held, item{"argument", rv, true, Snap(rv, true)})
	}
	return v
}

// R is a result.
func R[T any](v T) T {
	if On {
		rv := reflect.ValueOf(&v).Elem()
		held = append(held, item{"result", rv, false, Snap(rv, false)})
	}
	return v
}

// Changed tells what no longer is what it was.
func Changed() string {
	for _, h := range held {
		if s := Snap(h.v, h.deep); s != h.snap {
			return fmt.Sprintf("%s of type %s was\n    %s\n  and is now\n    %s", h.what, h.v.Type(), cut(h.snap), cut(s))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// Forget drops everything but the last n items.
func Forget(n int) {
	if len(held) > n {
		held = append([]item{}, held[len(held)-n:]...)
	}
}

// Held is the number of items remembered.
func Held() int { return len(held) }

// Scribble overwrites the bytes of the remembered results and arguments: their owner may do so at any time.
func Scribble() {
	for _, h := range held {
		scribble(h.v, 0)
	}
	held = nil
}

func scribble(v reflect.Value, d int) {
	if d > 8 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf((*big.Int)(nil)) && v.Type().Elem().Kind() == reflect.Struct {
			scribble(v.Elem(), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), d+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.CanInterface() {
				b := v.Bytes()
				for i := range b {
					b[i] ^= 0x5a
				}
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), d+1)
		}
	}
}

// Copy is a deep copy (of what is exported) with spare capacity behind every slice.
func Copy[T any](v T) T {
	var c T
	copyInto(reflect.ValueOf(&c).Elem(), reflect.ValueOf(&v).Elem(), 0)
	return c
}

func copyInto(d, s reflect.Value, depth int) {
	if depth > 12 {
		d.Set(s)
		return
	}
	switch s.Kind() {
	case reflect.Ptr:
		if s.IsNil() {
			return
		}
		if b, ok := s.Interface().(*big.Int); ok {
			d.Set(reflect.ValueOf(new(big.Int).Set(b)))
			return
		}
		for i := 0; s.Elem().Kind() == reflect.Struct && i < s.Elem().NumField(); i++ {
			if !s.Elem().Type().Field(i).IsExported() {
				d.Set(s)
				return
			}
		}
		n := reflect.New(s.Type().Elem())
		copyInto(n.Elem(), s.Elem(), depth+1)
		d.Set(n)
	case reflect.Slice:
		if s.IsNil() {
			return
		}
		n := s.Len()
		extra := 3
		if s.Type().Elem().Kind() == reflect.Uint8 {
			extra = 40
		}
		m := reflect.MakeSlice(s.Type(), n, n+extra)
		for i := 0; i < n; i++ {
			copyInto(m.Index(i), s.Index(i), depth+1)
		}
		if s.Type().Elem().Kind() == reflect.Uint8 {
			r := m.Slice(0, n+extra)
			for i := n; i < n+extra; i++ {
				r.Index(i).SetUint(0xa5)
			}
		}
		d.Set(m)
	case reflect.Struct:
		d.Set(s)
		for i := 0; i < s.NumField(); i++ {
			if s.Type().Field(i).IsExported() {
				copyInto(d.Field(i), s.Field(i), depth+1)
			}
		}
	case reflect.Interface:
		if s.IsNil() {
			return
		}
		n := reflect.New(s.Elem().Type()).Elem()
		copyInto(n, s.Elem(), depth+1)
		d.Set(n)
	default:
		d.Set(s)
	}
}

// Snap describes a value completely.
func Snap(v reflect.Value, deep bool) string {
	var b strings.Builder
	snap(&b, v, deep, 0)
	return b.String()
}

func snap(b *strings.Builder, v reflect.Value, deep bool, d int) {
	if d > 20 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface && v.Type() == reflect.TypeOf((*error)(nil)).Elem() && v.CanInterface() {
			b.WriteString("error " + v.Interface().(error).Error())
			return
		}
		b.WriteByte('&')
		snap(b, v.Elem(), deep, d+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			snap(b, v.Field(i), deep, d+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		one := func(w reflect.Value) {
			if w.Type().Elem().Kind() == reflect.Uint8 {
				b.WriteString("0x" + hex.EncodeToString(w.Bytes()))
				return
			}
			b.WriteByte('[')
			for i := 0; i < w.Len(); i++ {
				snap(b, w.Index(i), deep, d+1)
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		}
		one(v)
		if deep && v.Cap() > v.Len() {
			b.WriteString("+")
			one(v.Slice(v.Len(), v.Cap()))
		}
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			snap(b, v.Index(i), deep, d+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, Snap(k, deep)+"="+Snap(v.MapIndex(k), deep))
		}
		sortStrings(l)
		b.WriteString("map" + strings.Join(l, ","))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
