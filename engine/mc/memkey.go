//go:build go1.21

package main

import (
	"math"
	"reflect"
	"sort"
)

// memKey renders, up to renaming of addresses and of written values, the whole
// memory reachable from the live dataframes (including what no accessor shows:
// which maps, slices and backing arrays are one and the same) together with the
// model. Two histories with the same key have the same futures, so that a tree
// of histories needs to be explored from one of them only.
//
// Fields called structureUID and dataUID (random identifiers that are only
// printed) and maxCPU are left out.
type memKey struct {
	h1, h2 uint64
	maps   map[uintptr]int
	ptrs   map[uintptr]int
	slices []memSlice
	vals   map[interface{}]int
	todo   []reflect.Value // slices whose contents are rendered once
}

type memSlice struct {
	ptr, end uintptr
	n, cap   int
	v        reflect.Value
}

func (k *memKey) add(x uint64) {
	k.h1 = (k.h1 ^ x) * 0x9E3779B97F4A7C15
	k.h1 ^= k.h1 >> 29
	k.h2 = (k.h2 + x + 0x7F4A7C15) * 0xD6E8FEB86659FD93
	k.h2 ^= k.h2 >> 32
}

func (k *memKey) str(s string) {
	k.add(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		k.add(uint64(s[i]))
	}
}

// val numbers values in order of appearance; the special ones stay themselves.
func (k *memKey) val(v interface{}) {
	switch x := v.(type) {
	case nil:
		k.add(1)
		return
	case bool:
		k.add(2 + uint64(boolInt(x)))
		return
	case float64:
		if x != x {
			k.add(4)
			return
		}
		if x == 0 {
			k.add(5 + math.Float64bits(x)>>63)
			return
		}
	case int:
		if x == -1 || x == 0 {
			k.add(uint64(8 + x))
			return
		}
	}
	n, ok := k.vals[v]
	if !ok {
		n = len(k.vals) + 16
		k.vals[v] = n
	}
	k.add(uint64(n))
}

func (k *memKey) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		k.add(uint64(boolInt(v.Bool())))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		k.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		k.add(math.Float64bits(v.Float()))
	case reflect.String:
		k.str(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			k.add(11)
			return
		}
		p := v.Pointer()
		if n, ok := k.ptrs[p]; ok {
			k.add(12)
			k.add(uint64(n))
			return
		}
		k.ptrs[p] = len(k.ptrs)
		k.add(13)
		k.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			k.add(14)
			return
		}
		e := v.Elem()
		k.str(e.Type().String())
		if e.Kind() == reflect.Ptr { // encodings: only the identity matters
			p := e.Pointer()
			n, ok := k.ptrs[p]
			if !ok {
				n = len(k.ptrs)
				k.ptrs[p] = n
			}
			k.add(uint64(n))
			return
		}
		k.walk(e)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			switch t.Field(i).Name {
			case "structureUID", "dataUID", "maxCPU":
				continue
			}
			k.walk(v.Field(i))
		}
	case reflect.Map:
		if v.IsNil() {
			k.add(15)
			return
		}
		p := v.Pointer()
		if n, ok := k.maps[p]; ok {
			k.add(17)
			k.add(uint64(n))
			return
		}
		k.maps[p] = len(k.maps)
		keys := v.MapKeys()
		k.add(uint64(len(keys)))
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, x := range keys {
			k.str(x.String())
			k.walk(v.MapIndex(x))
		}
	case reflect.Slice:
		if v.IsNil() {
			k.add(18)
			return
		}
		k.add(19)
		k.add(uint64(v.Len()))
		k.add(uint64(v.Cap()))
		if v.Cap() == 0 {
			return
		}
		p := v.Pointer()
		k.slices = append(k.slices, memSlice{p, p + uintptr(v.Cap())*v.Type().Elem().Size(), v.Len(), v.Cap(), v})
	}
}

// finish renders the backing arrays: who overlaps whom, and the contents.
func (k *memKey) finish() {
	ord := make([]int, len(k.slices))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return k.slices[ord[a]].ptr < k.slices[ord[b]].ptr })
	region := make([]int, len(ord))
	var base, end []uintptr
	for _, i := range ord {
		s := k.slices[i]
		if n := len(base); n > 0 && s.ptr < end[n-1] {
			if s.end > end[n-1] {
				end[n-1] = s.end
			}
			region[i] = n - 1
			continue
		}
		base = append(base, s.ptr)
		end = append(end, s.end)
		region[i] = len(base) - 1
	}
	num := make([]int, len(base))
	read := make([]uintptr, len(base))
	next := 1
	for i, s := range k.slices {
		r := region[i]
		if num[r] == 0 {
			num[r] = next
			next++
			k.add(uint64(end[r] - base[r]))
		}
		k.add(uint64(num[r]))
		k.add(uint64(s.ptr - base[r]))
		full := s.v.Slice(0, s.cap)
		if read[r] >= s.end {
			continue
		}
		read[r] = s.end
		k.contents(full)
	}
}

func (k *memKey) contents(v reflect.Value) {
	for i, n := 0, v.Len(); i < n; i++ {
		e := v.Index(i)
		switch e.Kind() {
		case reflect.Float64:
			k.val(e.Float())
		case reflect.Int:
			k.val(int(e.Int()))
		case reflect.Bool:
			k.val(e.Bool())
		case reflect.Interface:
			if e.IsNil() {
				k.val(nil)
				break
			}
			x := e.Elem()
			switch x.Kind() {
			case reflect.String:
				k.val(x.String())
			case reflect.Ptr:
				k.val(x.Pointer())
			default:
				k.walk(x)
			}
		default:
			k.walk(e)
		}
	}
}

// stateKey is the key of the whole world.
func (w *world) stateKey() [2]uint64 {
	k := &memKey{h1: 1, h2: 2, maps: map[uintptr]int{}, ptrs: map[uintptr]int{}, vals: map[interface{}]int{}}
	idx := map[*frame]int{}
	for i, f := range w.frames {
		idx[f] = i + 1
	}
	cells := map[*cell]int{}
	rows := map[int]int{} // identities of rows, in order
	var order []int
	for _, f := range w.frames {
		for _, r := range f.rows {
			if _, ok := rows[r]; !ok {
				rows[r] = 0
				order = append(order, r)
			}
		}
	}
	sort.Ints(order)
	for i, r := range order {
		rows[r] = i
	}
	for _, f := range w.frames {
		k.add(uint64(idx[f.parent]))
		k.add(uint64(f.kids))
		k.add(uint64(boolInt(f.derived > 0)*4 + boolInt(f.deriv)*2 + boolInt(f.safe)))
		k.str(f.enc)
		for _, r := range f.rows {
			k.add(uint64(rows[r]))
			k.add(uint64(w.inner[r]))
		}
		for _, name := range f.names() {
			c := f.cols[name]
			k.str(name)
			k.add(uint64(c.kind))
			k.add(uint64(boolInt(c.str)))
			for _, x := range c.cells {
				n, ok := cells[x]
				if !ok {
					n = len(cells)
					cells[x] = n
				}
				k.add(uint64(n))
				if !ok {
					v := x.v
					if o, isObj := v.(*obj); isObj && o != nil {
						v = reflect.ValueOf(o).Pointer()
					}
					k.val(v)
				}
			}
		}
		k.walk(reflect.ValueOf(f.df).Elem())
	}
	for _, o := range w.ownMasks {
		k.walk(reflect.ValueOf(o.m))
	}
	k.finish()
	return [2]uint64{k.h1, k.h2}
}
