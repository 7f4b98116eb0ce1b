package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"vmon/tm"
)

// snap renders everything reachable from v: addresses, lengths, capacities,
// contents (spare capacity and hidden fields included).
func snap(v reflect.Value) string {
	var sb strings.Builder
	snapTo(&sb, v, map[uintptr]bool{})
	return sb.String()
}

func snapTo(sb *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(sb, v.Complex())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(sb, "@%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Elem().Type().String())
		snapTo(sb, v.Elem(), seen)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "&%x", v.Pointer())
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		snapTo(sb, v.Elem(), seen)
		delete(seen, v.Pointer())
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "[%x/%d/%d:", v.Pointer(), v.Len(), v.Cap())
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			snapTo(sb, w.Index(i), seen)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			snapTo(sb, v.Index(i), seen)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		var es []string
		for it := v.MapRange(); it.Next(); {
			var one strings.Builder
			snapTo(&one, it.Key(), seen)
			one.WriteByte(':')
			snapTo(&one, it.Value(), seen)
			es = append(es, one.String())
		}
		sort.Strings(es)
		fmt.Fprintf(sb, "map@%x{%s}", v.Pointer(), strings.Join(es, ","))
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = tm.Settable(f)
			}
			snapTo(sb, f, seen)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	}
}

// diffAt shows where two renderings part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 40
	if from < 0 {
		from = 0
	}
	cutAt := func(s string) string {
		to := i + 40
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			return ""
		}
		return s[from:to]
	}
	return fmt.Sprintf("...%s... became ...%s...", cutAt(a), cutAt(b))
}
